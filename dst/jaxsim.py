"""Simulated multi-process arrays, shardings and devices.

vmoe's checkpoint code only touches the public surface of jax.Array
(global_shards, sharding, shape, dtype, ...). These stand-ins give every
simulated host its own view: only the shards of its own devices have data.
"""
import itertools

import jax
import numpy as np

from dst import world as world_lib


class SimDevice:
  """A device that belongs to one of the simulated hosts."""

  def __init__(self, did, process_index):
    self.id = did
    self.process_index = process_index
    self.platform = 'sim'
    self.device_kind = 'sim'

  def __repr__(self):
    return f'SimDevice(id={self.id}, process={self.process_index})'


def _here():
  h = world_lib.current_host()
  return 0 if h is None else h.index


class DeviceBuffer(jax.Array):
  """Single-device buffer. Reading it copies (device to host)."""

  def __init__(self, value):
    self._value_np = np.array(value)
    self._gone = False

  def kill(self):
    self._gone = True
    # The memory is reused by somebody else.
    v = self._value_np
    if v.size:
      v.reshape(-1).view(np.uint8)[...] = 0xA5

  def _check(self):
    if self._gone:
      raise RuntimeError('Array has been deleted.')

  def __array__(self, dtype=None, copy=None):
    self._check()
    v = np.array(self._value_np)
    return v if dtype is None else v.astype(dtype)

  def __getitem__(self, idx):
    self._check()
    return DeviceBuffer(self._value_np[idx])

  @property
  def shape(self):
    return self._value_np.shape

  @property
  def dtype(self):
    return self._value_np.dtype

  @property
  def ndim(self):
    return self._value_np.ndim

  @property
  def size(self):
    return self._value_np.size

  @property
  def nbytes(self):
    return self._value_np.nbytes

  @property
  def itemsize(self):
    return self._value_np.dtype.itemsize

  def flatten(self):
    self._check()
    return DeviceBuffer(self._value_np.flatten())

  def reshape(self, *a):
    self._check()
    return DeviceBuffer(self._value_np.reshape(*a))

  def copy(self):
    self._check()
    return DeviceBuffer(self._value_np)

  def tobytes(self):
    self._check()
    return self._value_np.tobytes()

  def item(self):
    self._check()
    return self._value_np.item()

  def block_until_ready(self):
    self._check()
    return self

  def copy_to_host_async(self):
    self._check()

  def is_deleted(self):
    return self._gone

  def delete(self):
    self.kill()


class SimShard:

  def __init__(self, device, index, data, replica_id):
    self.device = device
    self.index = index
    self._data = data
    self.replica_id = replica_id

  @property
  def data(self):
    # jax returns None for the shards of other processes.
    return self._data

  def __repr__(self):
    return f'SimShard({self.device}, {self.index}, replica={self.replica_id})'


class SimMesh:
  """Devices of all hosts in a logical mesh."""

  def __init__(self, devices, shape, names):
    self.devices = devices
    self.shape = tuple(shape)
    self.names = tuple(names)


class SimSharding:
  """Partition of array dims over mesh axes (like NamedSharding)."""

  def __init__(self, mesh, spec, explicit=False):
    self.mesh = mesh
    self.spec = tuple(spec)   # per dim: None, name or tuple of names
    self.explicit = explicit  # spell out slice(0, n) instead of slice(None)

  def _axes(self, d):
    s = self.spec[d] if d < len(self.spec) else None
    if s is None:
      return ()
    return (s,) if isinstance(s, str) else tuple(s)

  def _parts(self, d):
    n = 1
    for a in self._axes(d):
      n *= self.mesh.shape[self.mesh.names.index(a)]
    return n

  def shard_shape(self, global_shape):
    return tuple(n // self._parts(d) for d, n in enumerate(global_shape))

  def devices_indices_map(self, global_shape):
    out = {}
    coords = itertools.product(*(range(n) for n in self.mesh.shape))
    for dev, coord in zip(self.mesh.devices, coords):
      idx = []
      for d, n in enumerate(global_shape):
        parts = self._parts(d)
        k = 0
        for a in self._axes(d):
          ax = self.mesh.names.index(a)
          k = k * self.mesh.shape[ax] + coord[ax]
        if parts == 1 and not self.explicit:
          idx.append(slice(None))
        else:
          step = n // parts
          idx.append(slice(k * step, (k + 1) * step, None))
      out[dev] = tuple(idx)
    return out

  def addressable_devices_indices_map(self, global_shape):
    here = _here()
    return {d: i for d, i in self.devices_indices_map(global_shape).items()
            if d.process_index == here}

  @property
  def device_set(self):
    return set(self.mesh.devices)

  @property
  def addressable_devices(self):
    here = _here()
    return set(d for d in self.mesh.devices if d.process_index == here)

  @property
  def is_fully_addressable(self):
    here = _here()
    return all(d.process_index == here for d in self.mesh.devices)

  @property
  def is_fully_replicated(self):
    return all(self._parts(d) == 1 for d in range(len(self.spec)))

  def __eq__(self, other):
    return (isinstance(other, SimSharding) and self.spec == other.spec and
            self.mesh is other.mesh)

  def __hash__(self):
    return hash((self.spec, id(self.mesh)))

  def __repr__(self):
    return f'SimSharding({self.mesh.names}:{self.mesh.shape}, {self.spec})'


def _key(index, shape):
  return tuple(s.indices(n)[:2] for s, n in zip(index, shape))


class SimArray(jax.Array):
  """The view that one host has of a global array."""

  def __init__(self, shape, dtype, sharding, local, host, weak_type=False):
    self._shape = tuple(shape)
    self._dtype = np.dtype(dtype)
    self._sharding = sharding
    self._local = local         # {slice key: DeviceBuffer} per device
    self._host = host
    self._weak = weak_type
    self._gone = False
    self._shards = None

  @classmethod
  def from_global(cls, value, sharding, host):
    value = np.asarray(value)
    local = {}
    for dev, idx in sharding.devices_indices_map(value.shape).items():
      if dev.process_index == host:
        local[dev] = DeviceBuffer(value[idx])
    return cls(value.shape, value.dtype, sharding, local, host)

  shape = property(lambda self: self._shape)
  dtype = property(lambda self: self._dtype)
  ndim = property(lambda self: len(self._shape))
  size = property(lambda self: int(np.prod(self._shape)))
  itemsize = property(lambda self: self._dtype.itemsize)
  nbytes = property(lambda self: self.size * self._dtype.itemsize)
  weak_type = property(lambda self: self._weak)
  sharding = property(lambda self: self._sharding)

  @property
  def global_shards(self):
    if self._gone:
      raise RuntimeError('Array has been deleted.')
    if self._shards is None:
      seen = {}
      out = []
      for dev, idx in self._sharding.devices_indices_map(self._shape).items():
        k = _key(idx, self._shape)
        r = seen.get(k, 0)
        seen[k] = r + 1
        out.append(SimShard(dev, idx, self._local.get(dev), r))
      self._shards = out
    return list(self._shards)

  @property
  def addressable_shards(self):
    return [s for s in self.global_shards
            if s.device.process_index == self._host]

  def addressable_data(self, i):
    return self.addressable_shards[i].data

  @property
  def is_fully_addressable(self):
    return all(d.process_index == self._host
               for d in self._sharding.mesh.devices)

  @property
  def is_fully_replicated(self):
    return self._sharding.is_fully_replicated

  def copy_to_host_async(self):
    if self._gone:
      raise RuntimeError('Array has been deleted.')

  def block_until_ready(self):
    return self

  def is_deleted(self):
    return self._gone

  def delete(self):
    self._gone = True
    for b in self._local.values():
      b.kill()

  def __array__(self, dtype=None, copy=None):
    if self._gone:
      raise RuntimeError('Array has been deleted.')
    if not self.is_fully_addressable and not self.is_fully_replicated:
      raise RuntimeError('Fetching value for `jax.Array` that spans '
                         'non-addressable devices is not possible.')
    out = np.zeros(self._shape, self._dtype)
    for s in self.addressable_shards:
      out[s.index] = np.asarray(s.data)
    return out if dtype is None else out.astype(dtype)

  def __repr__(self):
    return f'SimArray({self._shape}, {self._dtype}, {self._sharding})'


def make_array_from_callback(shape, sharding, cb, dtype=None):
  """Stand-in for jax.make_array_from_callback for simulated shardings."""
  here = _here()
  local = {}
  dt = dtype
  for dev, idx in sharding.devices_indices_map(tuple(shape)).items():
    if dev.process_index == here:
      v = np.asarray(cb(idx))
      want = sharding.shard_shape(tuple(shape))
      if v.shape != want:
        raise ValueError(f'callback returned shape {v.shape}, expected {want}')
      dt = v.dtype
      local[dev] = DeviceBuffer(v)
  return SimArray(shape, dt if dt is not None else np.float32, sharding, local,
                  here)

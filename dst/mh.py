"""Simulated multi-process jobs over the real jax devices of this process.

The devices of this process are divided among the simulated hosts. Each host
sees only its own devices as local ones, and a global array is put together
from the buffers of all hosts (a meeting point of the job, as the step that
uses it would be). The arrays, meshes, shardings and compiled functions are
the real ones; every host runs them on its own copy of the global arrays.
"""
import sys

import numpy as np

from dst import world as world_lib

_installed = False


def install():
  global _installed
  if _installed:
    return
  _installed = True
  import jax
  memoize_compilation()

  def in_repo(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(
        world_lib.REPO_PREFIX)

  def owners():
    h = world_lib.current_host()
    if h is None:
      return None, None
    w = world_lib.active()
    return h, getattr(w, 'owner', None)

  real_ld = jax.sharding.Mesh.local_devices

  def local_devices(self):
    out = (real_ld.__get__(self) if not isinstance(real_ld, property)
           else real_ld.fget(self))
    h, owner = owners()
    if owner is None or not in_repo():
      return out
    return [d for d in self.devices.flat if owner.get(d.id) == h.index]

  jax.sharding.Mesh.local_devices = property(local_devices)

  real_jld = jax.local_devices

  def jax_local_devices(*a, **kw):
    h, owner = owners()
    if owner is None or not in_repo():
      return real_jld(*a, **kw)
    return [d for d in real_jld(*a, **kw) if owner.get(d.id) == h.index]

  jax.local_devices = jax_local_devices

  real_jd = jax.devices

  def jax_devices(*a, **kw):
    h, owner = owners()
    if owner is None or not in_repo():
      return real_jd(*a, **kw)
    return [d for d in real_jd(*a, **kw) if d.id in owner]

  jax.devices = jax_devices

  device = type(jax.devices('cpu')[0])
  real_pi = device.process_index

  def process_index(self):
    h, owner = owners()
    if owner is None or not in_repo():
      return real_pi.fget(self)
    return owner.get(self.id, 0)

  device.process_index = property(process_index)

  real_make = jax.make_array_from_single_device_arrays

  def make(shape, sharding, arrays, *a, **kw):
    h, owner = owners()
    if owner is None:
      return real_make(shape, sharding, arrays, *a, **kw)
    w = world_lib.active()
    arrays = list(arrays)
    for x in arrays:
      for d in x.devices():
        if owner.get(d.id) != h.index:
          raise ValueError(f'host {h.index} has no device {d}')
    mine = {d.id for d in sharding.device_set if owner[d.id] == h.index}
    if {d.id for x in arrays for d in x.devices()} != mine or (
        len(arrays) != len(mine)):
      raise ValueError(f'host {h.index}: wrong set of buffers')
    seen = getattr(w, 'on_global', None)
    if len(w.hosts) == 1:
      w.kernel.point('global_array')
      out = real_make(shape, sharding, arrays, *a, **kw)
      if seen is not None:
        seen(out)
      return out

    def combine(values):
      shapes = [v[0] for v in values]
      if any(s != shapes[0] for s in shapes):
        raise_ = ValueError(f'hosts disagree on the global shape: {shapes}')
        return [raise_] * len(values)
      out = []
      for _ in values:
        # Own buffers for each host: compiled functions may donate them.
        bufs = [jax.device_put(np.array(x), list(x.devices())[0])
                for v in values for x in v[1]]
        try:
          out.append(real_make(shape, sharding, bufs))
        except Exception as e:  # pylint: disable=broad-except
          out.append(e)
      if seen is not None and not isinstance(out[0], Exception):
        seen(out[0])
      return out

    res = w.collective((tuple(shape), arrays), combine, 'global_array')
    if isinstance(res, Exception):
      raise res
    return res

  jax.make_array_from_single_device_arrays = make


def memoize_compilation():
  """Compiles equal modules once per worker (a matter of speed only)."""
  from jax._src import compiler
  real = compiler.backend_compile_and_load
  memo = {}

  def compile_and_load(backend, module, executable_devices, options,
                       host_callbacks):
    if host_callbacks:
      return real(backend, module, executable_devices, options, host_callbacks)
    key = (str(module), tuple(d.id for d in executable_devices),
           options.SerializeAsString())
    if key not in memo:
      if len(memo) > 3000:
        memo.clear()
      memo[key] = real(backend, module, executable_devices, options,
                       host_callbacks)
    return memo[key]

  compiler.backend_compile_and_load = compile_and_load


def attach(w, hosts, per_host, order=None):
  """Gives the world's hosts the first hosts*per_host devices."""
  import jax
  devs = sorted(jax.devices('cpu'), key=lambda d: d.id)[:hosts * per_host]
  if len(devs) < hosts * per_host:
    raise ValueError('not enough devices')
  w.owner = {d.id: i // per_host for i, d in enumerate(devs)}
  return devs if order is None else [devs[i] for i in order]


def mesh_of(devs, shape=None, names=('expert', 'replica')):
  import jax
  shape = shape or (1, len(devs))
  arr = np.empty(len(devs), dtype=object)
  arr[:] = devs
  return jax.sharding.Mesh(arr.reshape(shape), names)

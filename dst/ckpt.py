"""Shared pieces of the checkpoint scenarios: random trees, topologies, jobs."""
import math
import zlib

import jax
import ml_dtypes
import numpy as np

from dst import jaxsim

DTYPES = ['float32', 'float32', 'int32', 'bfloat16', 'uint8', 'bool', 'float16',
          'int8', 'complex64']


def np_dtype(name):
  return np.dtype(getattr(ml_dtypes, name)) if name == 'bfloat16' else (
      np.dtype(name))


def value(leaf, i, version):
  """Global value of the i-th leaf in the given version of the state."""
  shape = tuple(leaf['shape'])
  n = int(np.prod(shape)) if shape else 1
  dt = np_dtype(leaf['dtype'])
  rs = np.random.RandomState(zlib.crc32(f'{i}/{version}'.encode()) & 0xffffffff)
  if dt == np.bool_:
    v = rs.randint(0, 2, n)
  elif dt.kind in 'iu' and dt.itemsize == 1:
    v = rs.randint(0, 120, n)
  elif dt.kind == 'c':
    v = rs.randint(1, 4000, n) + 1j * rs.randint(1, 4000, n)
  elif dt.itemsize == 2:
    v = rs.randint(1, 250, n)
  else:
    v = rs.permutation(max(n, 1))[:n] + 1 + 1000 * rs.randint(1, 2000)
  return np.asarray(v).astype(dt).reshape(shape)


def factor_mesh(rng, total):
  """A random 1-3 axis factorisation of `total`."""
  dims = []
  rest = total
  for _ in range(rng.randint(0, 2)):
    divs = [d for d in range(1, rest + 1) if rest % d == 0]
    d = rng.choice(divs)
    dims.append(d)
    rest //= d
  dims.append(rest)
  return dims


def gen_spec(rng, shape, mesh_shape):
  """Assigns mesh axes to the dims they divide."""
  names = [f'a{k}' for k in range(len(mesh_shape))]
  free = dict(zip(names, mesh_shape))
  spec = []
  for n in shape:
    got = []
    rem = n
    for a in list(free):
      if rng.random() < 0.5 and n > 0 and rem % free[a] == 0:
        got.append(a)
        rem //= free.pop(a)
    spec.append(got)
  return spec


def gen_leaves(rng, mesh_shape, max_leaves=5, zero=0.06, max_dim=4):
  total = math.prod(mesh_shape)
  out = []
  for k in range(rng.randint(1, max_leaves)):
    nd = rng.choice((0, 1, 1, 2, 2, 3))
    shape = []
    for _ in range(nd):
      base = rng.choice([1, 2, 3, 4, 5, 7, total, total, 2 * total,
                         mesh_shape[0], mesh_shape[-1]])
      shape.append(base)
    while math.prod(shape) > 600:
      j = shape.index(max(shape))
      shape[j] = max(1, shape[j] // 2)
    if rng.random() < zero and shape:
      shape[rng.randrange(len(shape))] = 0
    path = rng.choice(['p{k}', 'enc/l{k}', 'enc/sub/l{k}', 'opt/{k}'])
    out.append({'path': path.format(k=k), 'shape': shape,
                'dtype': rng.choice(DTYPES),
                'spec': gen_spec(rng, shape, mesh_shape)})
  return out


def gen_topology(rng, max_hosts=4, max_dev=3):
  hosts = rng.choice([h for h in (1, 1, 2, 2, 3, 4, 5) if h <= max_hosts])
  dev = rng.randint(1, max_dev)
  return {'hosts': hosts, 'dev': dev, 'mesh': factor_mesh(rng, hosts * dev),
          'perm': rng.getrandbits(16) if rng.random() < 0.6 else 0,
          'explicit': rng.random() < 0.5}


def build_mesh(topo):
  devices = [jaxsim.SimDevice(h * topo['dev'] + d, h)
             for h in range(topo['hosts']) for d in range(topo['dev'])]
  if topo.get('perm'):
    import random
    random.Random(topo['perm']).shuffle(devices)
  return jaxsim.SimMesh(devices, topo['mesh'],
                        [f'a{k}' for k in range(len(topo['mesh']))])


def sharding_of(mesh, leaf, topo, spec=None):
  spec = leaf['spec'] if spec is None else spec
  return jaxsim.SimSharding(
      mesh, [tuple(s) if s else None for s in spec], topo.get('explicit'))


def nest(leaves, values):
  out = {}
  for leaf, v in zip(leaves, values):
    d = out
    parts = leaf['path'].split('/')
    for p in parts[:-1]:
      d = d.setdefault(p, {})
    d[parts[-1]] = v
  return out


def lookup(tree, leaf):
  for p in leaf['path'].split('/'):
    tree = tree[p]
  return tree


def arrays(leaves, mesh, topo, host, version):
  """The SimArrays that `host` holds."""
  return [jaxsim.SimArray.from_global(value(l, i, version),
                                      sharding_of(mesh, l, topo), host)
          for i, l in enumerate(leaves)]


def state(leaves, mesh, topo, host, version):
  """The tree of SimArrays that `host` holds."""
  return nest(leaves, arrays(leaves, mesh, topo, host, version))


class Template:
  """A leaf that only has the sharding (like jax.ShapeDtypeStruct)."""

  def __init__(self, shape, dtype, sharding):
    self.shape, self.dtype, self.sharding = tuple(shape), dtype, sharding


def template_leaves(leaves, mesh, topo, specs=None):
  return [
      Template(l['shape'], np_dtype(l['dtype']),
               sharding_of(mesh, l, topo, None if specs is None else specs[i]))
      for i, l in enumerate(leaves)]


def templates(leaves, mesh, topo, specs=None):
  return nest(leaves, template_leaves(leaves, mesh, topo, specs))


def same(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and a.dtype == b.dtype and (
      a.tobytes() == b.tobytes())


def mismatch(arr, leaf, i, version, host):
  """None if the local part of arr is exactly the saved value."""
  want = value(leaf, i, version)
  if tuple(arr.shape) != want.shape:
    return f'leaf {leaf["path"]}: shape {arr.shape} != {want.shape}'
  if np.dtype(arr.dtype) != want.dtype:
    return f'leaf {leaf["path"]}: dtype {arr.dtype} != {want.dtype}'
  for s in arr.addressable_shards:
    got = np.asarray(s.data)
    if not same(got, want[tuple(s.index)]):
      return (f'leaf {leaf["path"]} on host {host}, slice {s.index}: '
              f'{got.ravel()[:8]} != {want[tuple(s.index)].ravel()[:8]}')
  return None


def check_tree(ctx, tree, leaves, version, host, cls='wrong-values'):
  flat = jax.tree_util.tree_leaves(tree)
  ctx.check(len(flat) == len(leaves), cls,
            lambda: f'{len(flat)} leaves instead of {len(leaves)}')
  for i, l in enumerate(leaves):
    try:
      arr = lookup(tree, l)
    except (KeyError, TypeError, IndexError):
      ctx.fail(cls, f'leaf {l["path"]} is missing from the restored tree')
    m = mismatch(arr, l, i, version, host)
    ctx.check(m is None, cls, m)


def leaf_shrinks(leaves):
  for k in range(len(leaves)):
    if len(leaves) > 1:
      yield leaves[:k] + leaves[k + 1:]
  for k, l in enumerate(leaves):
    if l['dtype'] != 'int32':
      yield leaves[:k] + [dict(l, dtype='int32')] + leaves[k + 1:]

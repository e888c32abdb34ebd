"""C03: a checkpoint that discovery reports can be restored exactly."""
from dst import ckpt
from dst import framework as fw
from dst import history
from dst import simfs
from dst.history import faults, gen, plan, setup, shrink  # pylint: disable=unused-import

FAULTY_RUNS = {'quick': 5, 'thorough': 10}

# Known finding: saving other values over a complete checkpoint, in place.
KNOWN = [{
    'id': 'resave-in-place',
    'class': 'torn-resave',
    'case': {
        'property': 'C03', 'scenario': 'resave', 'io_seed': 1, 'lines': False,
        'config': {'hosts': 2},
        'plan': [{'kind': 'crash_op', 'world': 1, 'host': 1, 'op': 'open_w',
                  'nth': 1}],
        'sched': {'decisions': {}},
    },
}]


def run(ctx):
  if ctx.case['scenario'] == 'resave':
    return resave(ctx)
  return history.run(ctx)


def resave(ctx):
  """Two hosts save version 1 of a step, then version 2; host 1 crashes."""
  fs = simfs.SimFS('posix')
  topo = {'hosts': 2, 'dev': 1, 'mesh': [2]}
  mesh = ckpt.build_mesh(topo)
  leaves = [{'path': 'w', 'shape': [4], 'dtype': 'int32', 'spec': [['a0']]}]
  prefix = simfs.ROOT + '/run/ckpt'

  def save(h, version):
    return lambda: history.partitioned.save_checkpoint(
        prefix + '_5', ckpt.state(leaves, mesh, topo, h, version)).get()

  for version in (1, 2):
    w = ctx.world(fs, num_hosts=2, devices_per_host=1)
    ctx.run_world(w, [save(0, version), save(1, version)])

  def observe():
    steps = list(history.base.iterate_complete_steps_for_prefix(
        prefix, ['.index', '.data']))
    if 5 not in steps:
      return
    tree = history.partitioned.restore_checkpoint(
        prefix + '_5', ckpt.templates(leaves, mesh, topo,
                                      [[[] for _ in leaves[0]['shape']]]))
    got = [ckpt.mismatch(tree['w'], leaves[0], 0, v, 0) for v in (1, 2)]
    ctx.check(None in got, 'torn-resave',
              'the reported step mixes the values of two saves')

  w = ctx.world(fs, faults=False)
  ctx.run_world(w, [observe])
  if w.hosts[0].status == 'raised':
    ctx.fail('reported-not-restorable', fw.brief(w.hosts[0].exc))

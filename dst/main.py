"""Entry point of a check: fans seeds out to workers, writes the evidence."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spec_of(prop):
  with open(os.path.join(VERIF, 'specs.json')) as f:
    return json.load(f)[prop]


def known_findings(prop):
  out = {}
  with open(os.path.join(VERIF, 'known_findings.txt')) as f:
    for line in f:
      line = line.strip()
      if line.startswith('known:'):
        fields = line.split(None, 3)      # known: property=ID id=NAME text
        if fields[1] == f'property={prop}':
          out[fields[2][len('id='):]] = fields[3]
  return out


def main():
  p = argparse.ArgumentParser()
  p.add_argument('prop')
  p.add_argument('tier', nargs='?', default='quick')
  p.add_argument('--workers', type=int, default=int(
      os.environ.get('VERIF_WORKERS', '8')))
  p.add_argument('--seeds', type=int, default=0)
  p.add_argument('--base', default=os.environ.get('VERIF_SEED', '1') or '1')
  p.add_argument('--no_evidence', action='store_true')
  a = p.parse_args()
  t0 = time.time()
  spec = spec_of(a.prop)
  seeds = a.seeds or spec['seeds'][a.tier]
  cap = spec.get('cap', {}).get(a.tier, 300 if a.tier == 'quick' else 3000)
  scratch = tempfile.mkdtemp(prefix=f'dst_{a.prop}_')
  env = dict(os.environ, PYTHONHASHSEED='0', TMPDIR=scratch)
  cmd = [sys.executable, '-X', 'faulthandler', '-m', 'dst.worker',
         '--prop', a.prop, '--tier', a.tier, '--base', a.base]
  outs, procs, logs = [], [], []
  code = 2
  try:
    for w in range(a.workers):
      out = os.path.join(scratch, f'{w}.json')
      log = open(os.path.join(scratch, f'{w}.log'), 'w')
      procs.append(subprocess.Popen(
          cmd + ['--worker', str(w), '--workers', str(a.workers), '--seeds',
                 str(seeds), '--time_cap', str(cap), '--out', out],
          env=env, cwd=VERIF, stdout=log, stderr=subprocess.STDOUT))
      outs.append(out)
      logs.append(log)
    hard = t0 + cap + 200
    for pr in procs:
      try:
        pr.wait(timeout=max(1, hard - time.time()))
      except subprocess.TimeoutExpired:
        pr.kill()
        pr.wait()
    for l in logs:
      l.close()
    res, broken = [], []
    for w, out in enumerate(outs):
      if os.path.exists(out):
        with open(out) as f:
          res.append(json.load(f))
      else:
        with open(os.path.join(scratch, f'{w}.log')) as f:
          broken.append(f'worker {w}: no result, rc={procs[w].returncode}\n' +
                        f.read()[-3000:])
    for r in res:
      if r.get('harness_error'):
        broken.append(r['harness_error'])
    viols = [r['violation'] for r in res if r.get('violation')]
    viols.sort(key=lambda v: v['index'])
    replay = None
    if viols:
      replay = write_replay(a, viols[0], env, cmd, scratch)
    known = known_findings(a.prop)
    for r in res:
      for kid in r.get('known', []):
        if kid in known:
          print(f'KNOWN-FINDING: property={a.prop} {known[kid]}')
        else:
          broken.append(f'finding {kid} is not listed in known_findings.txt')
    if not a.no_evidence:
      write_evidence(a, spec, res, viols, replay, broken, t0, seeds)
    if viols:
      v = viols[0]
      print(f'{v["class"]}: {v["detail"]}')
      print(f'VIOLATION property={a.prop} replay={replay}')
      code = 1
    elif broken:
      print('HARNESS ERROR\n' + '\n'.join(broken[:3]), file=sys.stderr)
      code = 2
    else:
      st = total(res)
      print(f'{a.prop}: held on {st["runs"]} simulated runs '
            f'({st["seeds"]} seeds, {st["distinct"]} distinct interleavings, '
            f'{sum(st["fired"].values())} faults fired) in '
            f'{time.time() - t0:.0f} s')
      code = 0
  finally:
    for pr in procs:
      if pr.poll() is None:
        pr.kill()
    shutil.rmtree(scratch, ignore_errors=True)
  sys.stdout.flush()
  return code


def write_replay(a, v, env, cmd, scratch):
  """Stores the minimised case; checks that it replays in a fresh process."""
  d = os.path.join(VERIF, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f'{a.prop}-{v["index"]}.json')
  doc = {'property': a.prop, 'seed': f'{a.base}/{v["index"]}',
         'class': v['class'], 'detail': v['detail'], 'case': v['case']}
  ok = False
  for case in [v['case'], v.get('original')]:
    if case is None or case.get('scenario') == 'import':
      continue
    doc['case'] = case
    with open(path, 'w') as f:
      json.dump(doc, f, indent=1, sort_keys=True)
    out = os.path.join(scratch, 'replay.json')
    try:
      subprocess.run(cmd + ['--replay', path, '--out', out], env=env, cwd=VERIF,
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                     timeout=200, check=False)
      with open(out) as f:
        rv = json.load(f).get('violation')
      ok = bool(rv) and rv['class'] == v['class']
    except (OSError, subprocess.TimeoutExpired, ValueError):
      ok = False
    if ok:
      break
  doc['replay_verified'] = ok
  doc['how'] = f'bash {VERIF}/replay.sh {path}'
  with open(path, 'w') as f:
    json.dump(doc, f, indent=1, sort_keys=True)
  return path


def total(res):
  t = {'fired': {}, 'notes': {}, 'scenarios': {}}
  for k in ('runs', 'seeds', 'probes', 'faulty', 'sim_time', 'steps',
            'switches', 'line_runs'):
    t[k] = sum(r['stats'].get(k, 0) for r in res)
  for k in ('fired', 'notes', 'scenarios'):
    for r in res:
      for n, c in r['stats'].get(k, {}).items():
        t[k][n] = t[k].get(n, 0) + c
  t['distinct'] = len(set(h for r in res for h in r.get('hashes', [])))
  t['time_capped'] = any(r['stats'].get('time_capped') for r in res)
  return t


def write_evidence(a, spec, res, viols, replay, broken, t0, seeds):
  st = total(res)
  wall = max(time.time() - t0, 1e-3)
  samples = [s for r in res for s in r.get('samples', [])][:5]
  doc = {
      'property': a.prop,
      'tier': a.tier,
      'seed': int(a.base) if str(a.base).isdigit() else 0,
      'level': 'exploration',
      'coverage': {
          'evaluations': st['runs'],
          'distinct_nontrivial': st['distinct'],
          'rule': ('one evaluation = one simulated execution whose oracle was '
                   'checked; distinct = different hash of the sequence of '
                   '(task, intercepted operation) of the run, counted only if '
                   'it had at least one task switch or injected fault'),
          'samples': samples,
          'seeds': st['seeds'],
          'seeds_planned': seeds,
          'time_capped': st['time_capped'],
          'runs_per_hour': int(st['runs'] / wall * 3600),
          'seeds_per_hour': int(st['seeds'] / wall * 3600),
          'simulated_seconds': round(st['sim_time'], 1),
          'scheduling_points': st['steps'],
          'task_switches': st['switches'],
          'runs_with_line_preemption': st['line_runs'],
          'faults_injected': st['fired'],
          'fault_free_runs': st['probes'],
          'runs_with_fault_plan': st['faulty'],
          'scenarios': st['scenarios'],
          'reached': st['notes'],
          'real_components': spec.get('real', []),
          'stubbed_components': spec.get('stub', []),
      },
      'wall_s': round(wall, 2),
      'assumptions': spec.get('assumptions', []),
      'violations': [{'class': v['class'], 'detail': v['detail'],
                      'replay': replay} for v in viols[:1]],
  }
  if broken:
    doc['harness_errors'] = [b[-500:] for b in broken]
  d = os.path.join(VERIF, 'evidence')
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, f'{a.prop}.json'), 'w') as f:
    json.dump(doc, f, indent=1)


if __name__ == '__main__':
  sys.exit(main())

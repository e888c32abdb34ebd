"""One worker process: runs seeds, reports statistics and violations."""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback


def main():
  p = argparse.ArgumentParser()
  p.add_argument('--prop', required=True)
  p.add_argument('--tier', default='quick')
  p.add_argument('--base', default='1')
  p.add_argument('--worker', type=int, default=0)
  p.add_argument('--workers', type=int, default=1)
  p.add_argument('--start', type=int, default=0)
  p.add_argument('--seeds', type=int, default=0)
  p.add_argument('--time_cap', type=float, default=240)
  p.add_argument('--out')
  p.add_argument('--replay')
  p.add_argument('--trace', action='store_true')
  p.add_argument('--hashes', action='store_true')
  p.add_argument('--keep_going', action='store_true')
  a = p.parse_args()

  from dst import seams
  seams.install()
  from dst import framework as fw
  out = {'stats': {}, 'violation': None, 'harness_error': None, 'known': []}
  t0 = time.time()

  def finish(code):
    out['wall'] = time.time() - t0
    if a.out:
      with open(a.out + '.part', 'w') as f:
        json.dump(out, f)
      os.rename(a.out + '.part', a.out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)

  try:
    module = fw.load(a.prop)
    if hasattr(module, 'setup'):
      module.setup()
  except Exception as e:  # pylint: disable=broad-except
    if fw.through_repo(e):
      out['violation'] = {
          'case': {'property': a.prop, 'scenario': 'import'}, 'index': -1,
          'class': f'import:{type(e).__name__}', 'detail': fw.brief(e)}
      finish(1)
    out['harness_error'] = traceback.format_exc()
    finish(2)

  if a.replay:
    with open(a.replay) as f:
      doc = json.load(f)
    if doc['case'].get('scenario') == 'import':
      print('imports succeed')
      finish(0)
    r = fw.execute(module, doc['case'], tracing=a.trace)
    if a.trace:
      for tag, who, label in r.log:
        print(f'  [world {tag}] {who}: {label}')
    out['violation'] = r.violation
    out['trace'] = r.trace
    print(json.dumps({'violation': r.violation, 'trace': r.trace,
                      'faults': r.fired}))
    finish(1 if r.violation else 0)

  st = {'runs': 0, 'seeds': 0, 'probes': 0, 'faulty': 0, 'sim_time': 0.0,
        'steps': 0, 'switches': 0, 'fired': {}, 'notes': {}, 'scenarios': {},
        'line_runs': 0}
  hashes, samples, seed_hashes = set(), [], {}
  out['stats'] = st
  all_viol = []

  def account(case, r):
    st['runs'] += 1
    st['sim_time'] += r.sim_time
    st['steps'] += r.steps
    st['switches'] += r.switches
    st['line_runs'] += bool(case.get('lines'))
    st['scenarios'][case['scenario']] = st['scenarios'].get(
        case['scenario'], 0) + 1
    for k, n in r.fired.items():
      st['fired'][k] = st['fired'].get(k, 0) + n
    for k, n in r.notes.items():
      st['notes'][k] = st['notes'].get(k, 0) + n
    if r.nontrivial():
      hashes.add(hash((case['scenario'], json.dumps(case['config'],
                                                    sort_keys=True) and 0,
                       r.trace)))
    if len(samples) < 3 and r.nontrivial():
      samples.append({'scenario': case['scenario'], 'config': case['config'],
                      'plan': case['plan'], 'switches': r.switches,
                      'fired': r.fired})

  def violated(case, r, index):
    cls = r.violation['class']
    try:
      small, rr, n = fw.shrink(module, case, cls, time.time() + 75)
    except Exception:  # pylint: disable=broad-except
      small, rr, n = case, None, 0
    rr = rr or r
    return {'case': small, 'index': index, 'class': cls,
            'detail': rr.violation['detail'], 'original': case,
            'shrink_runs': n, 'trace': rr.trace}

  try:
    if a.worker == 0 and hasattr(module, 'KNOWN'):
      for entry in module.KNOWN:
        r = fw.execute(module, entry['case'])
        account(entry['case'], r)
        if r.violation is not None:
          if r.violation['class'] == entry['class']:
            out['known'].append(entry['id'])
          else:
            out['violation'] = violated(entry['case'], r, -1)
            finish(1)
    if a.worker == 0 and hasattr(module, 'REGRESSIONS'):
      for case in module.REGRESSIONS:
        r = fw.execute(module, case)
        account(case, r)
        if r.violation is not None:
          out['violation'] = violated(case, r, -1)
          finish(1)
    for i in range(a.start + a.worker, a.start + a.seeds, a.workers):
      if time.time() - t0 > a.time_cap:
        st['time_capped'] = True
        break
      g = fw.cases_for_seed(module, a.prop, f'{a.base}/{i}', a.tier)
      case = next(g)
      first = True
      seed_hashes[i] = 0
      while True:
        r = fw.execute(module, case)
        account(case, r)
        st['probes' if first else 'faulty'] += 1
        seed_hashes[i] = hashlib.sha256(repr((
            seed_hashes[i], r.trace, r.violation is None)).encode()).hexdigest()
        if r.violation is not None:
          if a.keep_going:
            all_viol.append((i, r.violation['class'], r.violation['detail']))
            break
          out['violation'] = violated(case, r, i)
          out['violation']['index'] = i
          finish(1)
        try:
          case = g.send(r) if first else next(g)
        except StopIteration:
          break
        first = False
      st['seeds'] += 1
  except Exception:  # pylint: disable=broad-except
    out['harness_error'] = traceback.format_exc()
    print(out['harness_error'])
    finish(2)
  finally:
    out['hashes'] = sorted(hashes)
    out['samples'] = samples
    if a.hashes:
      out['seed_hashes'] = seed_hashes
    if all_viol:
      out['all_viol'] = all_viol
  if a.keep_going:
    from collections import Counter
    for v in all_viol[:20]:
      print(v)
    print(Counter(v[1] for v in all_viol))
    print(json.dumps(st, indent=1), 'distinct', len(hashes), time.time() - t0)
  finish(0)


if __name__ == '__main__':
  main()

"""Writes properties.jsonl, MANIFEST.json and specs.json from meta/props.py."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402  pylint: disable=wrong-import-position

TECH = ('deterministic simulation with fault injection (seeded search over '
        'schedules and fault plans)')


def main():
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in props.CLAIMED + props.NOT_APPLICABLE:
      q = p['quantifier']
      doc = {
          'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': q[0], 'text': q[1]},
          'why_tests_cant': p['why'],
          'anchors': {
              'files': p['files'],
              'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
              'observe_at': p['observe'],
              'hook_needed': None,
          },
      }
      assert len(p['title']) <= 80, p['id']
      f.write(json.dumps(doc) + '\n')
  built = [p for p in props.CLAIMED if os.path.exists(
      os.path.join(VERIF, 'dst/props', p['id'].lower() + '.py'))]
  assert len(built) == len(props.CLAIMED)
  manifest = {
      'version': 1,
      'setup_cmd': 'bash /verif/setup.sh',
      'hooks': {'guard': 'VMOE_DST_HOOKS', 'enable': 'none needed: no hook is '
                'compiled into /repo, all seams are installed from /verif',
                'source_commits': []},
      'checks': [{
          'property': p['id'],
          'quick_cmd': f'bash /verif/run.sh {p["id"]} quick',
          'thorough_cmd': f'bash /verif/run.sh {p["id"]} thorough',
          'technique': TECH,
          'level': 'exploration',
          'level_note': p['note'],
      } for p in built],
      'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                         for p in props.NOT_APPLICABLE],
      'notes': props.NOTES,
  }
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
  specs = {p['id']: {'seeds': {'quick': p['seeds'][0],
                               'thorough': p['seeds'][1]},
                     'real': p['real'], 'stub': p['stub'],
                     'assumptions': p['assumptions']} for p in built}
  with open(os.path.join(VERIF, 'specs.json'), 'w') as f:
    json.dump(specs, f, indent=1)
    f.write('\n')


main()

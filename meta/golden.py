"""Writes dst/golden.json: checkpoints written by the code that PYTHONPATH has.

Run once with the first version of the library (d07f279) in PYTHONPATH instead
of /repo; the files are fixtures of C02 ("checkpoints written by earlier
versions of the library").
"""
import base64
import json
import os
import random
import sys

from dst import ckpt, framework as fw, seams


def main(out):
  seams.install()
  module = fw.load('C02')
  module.GOLDEN = []
  module.setup()
  import vmoe
  print('written by', vmoe.__path__)
  docs = []
  rng = random.Random(7)
  while len(docs) < 14:
    _, c = module.gen(rng, 'quick')
    c['container'] = 'dict'
    c['previous'] = None
    c['restore'] = 'old' if len(docs) % 4 == 3 else 'tree'
    c['a'] = ckpt.gen_topology(rng) if c['hosts'] != c['a']['hosts'] else c['a']
    if any(0 in l['shape'] for l in c['leaves']):
      continue
    files = {}
    case = {'property': 'C02', 'scenario': 'roundtrip', 'config': c,
            'io_seed': 0, 'plan': [], 'sched': {'seed': 0}}
    module.simfs.SimFS = keep(files, module.simfs.SimFS)
    try:
      r = fw.execute(module, case)
    finally:
      module.simfs.SimFS = module.simfs.SimFS.__mro__[1]
    assert r.violation is None, r.violation
    fs = files['fs'][0]
    docs.append({
        'old': c['restore'] == 'old',
        'leaves': [dict(l, spec=[[] for _ in l['shape']])
                   for l in c['leaves']],
        'files': {os.path.basename(p): base64.b64encode(d).decode()
                  for p, d in sorted(fs.files.items())}})
  with open(out, 'w') as f:
    json.dump(docs, f, indent=0, sort_keys=True)
    f.write('\n')


def keep(files, cls):
  class Kept(cls):
    def __init__(self, *a):
      super().__init__(*a)
      files.setdefault('fs', []).insert(0, self)
  return Kept


main(sys.argv[1])

"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vlib.registry import PROPS
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, rest = [], []
for p in props:
    m = PROPS.get(p['id'])
    if m is None:
        rest.append(dict(property=p['id'], reason='no check yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                       thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=m.technique, level=m.level,
                       level_note=m.note or ('Seeded executions of the real code under monitors that compare each observed '
                                             'call with an independent 80-bit reference; nothing is claimed beyond the '
                                             'executions counted in the evidence. Trusts vlib/ref.py, numpy, gfortran.')))
json.dump(dict(version=1, setup_cmd='python3 vlib/build.py plain asan poison poison2 tsan',
               checks=checks, not_applicable=rest,
               notes='No hooks in /repo: the monitors wrap the public interface from outside, sanitizer builds are made '
                     'from the working tree into .build/.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(rest), 'without')

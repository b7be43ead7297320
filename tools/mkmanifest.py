"""Write MANIFEST.json from the list of built checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]

PACK = ('TLA+ spec of the pack (spec/Pack.tla) model checked with TLC; bounded-exhaustive '
        'behaviours replayed in the code, recorded random histories judged by TLC')
CASES = ('TLA+ spec (spec/%s.tla) checked with TLC; inputs enumerated by TLC replayed in the '
         'code, results of the code on random inputs judged by TLC against the spec')
TECH = {}
for i in range(1, 14):
    TECH['C%02d' % i] = PACK
for pid, mod in json.load(open(os.path.join(ROOT, 'tools', 'modules.json'))).items():
    TECH[pid] = CASES % mod

NOTE_PACK = ('Exhaustive for all event sequences of the model alphabets up to the stated depth and '
             'for recorded histories of the seeded driver; beyond those bounds it is evidence, not '
             'proof. Trusts TLC, numpy array construction and the projection in harness/packworld.py.')
NOTE_CASE = ('Exhaustive over the enumerated small scope, sampled (seeded) beyond it; every case is '
             'decided by the TLA+ specification evaluated by TLC. Trusts TLC, the projection of '
             'values in the harness and the harness writers that make the input files.')

checks, na = [], []
for p in props:
    pid = p['id']
    if pid in TECH:
        checks.append({'property': pid,
                       'quick_cmd': 'python3 check.py %s' % pid,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH[pid], 'level': 'model_checking',
                       'level_note': NOTE_PACK if TECH[pid] == PACK else NOTE_CASE})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: only the public API is observed. See DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')

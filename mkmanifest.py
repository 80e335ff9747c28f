"""Writes MANIFEST.json (run by hand after adding a property)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TRUST = ('Trusted: the pyvc verification-condition generator and its '
         'mechanical import-time rewriting, z3/cvc5, reals for floats. ')
PROOF = ('Every obligation generated from the code of /repo is discharged '
         'with no bound on the number or value of the inputs. ')
TECH = ('deductive verification: pre/postconditions on the real functions, '
        'obligations generated from the code of /repo on every run, '
        'discharged by normalisation, z3 and cvc5')
CLAIMED = {}


def claim(pid, level, note):
    CLAIMED[pid] = (level, note + TRUST)


exec(open(os.path.join(HERE, 'claims.py')).read())

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in CLAIMED:
        level, note = CLAIMED[pid]
        cmd = 'python3-vt -m pyvc.check %s' % pid
        checks.append({
            'property': pid, 'quick_cmd': cmd,
            'thorough_cmd': 'VERIF_TIER=thorough %s --thorough' % cmd,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH, 'level': level, 'level_note': note})
    else:
        na.append({'property': pid, 'reason': NOT_CLAIMED.get(
            pid, 'no contract has been written for it yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -m pyvc.setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks '
               'load the source files of /repo as they are',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'python3-vt -m pyvc.replay replays/FILE re-runs one failure.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

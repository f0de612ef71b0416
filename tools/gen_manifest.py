"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = {
    'C05': 'exhaustive enumeration of small curves and fields on the real arithmetic, against an explicit group model; boundary enumeration on secp256k1',
    'C19': 'exhaustive enumeration of scenarios x all flag subsets on the real interpreter, in lockstep with a reference interpreter',
    'C18': 'explicit-state exploration of bounded programs on the real interpreter, in lockstep with a reference interpreter',
    'C20': 'exhaustive enumeration of small scripts and of forgeries on the real interpreter, in lockstep with a reference interpreter',
    'C24': 'exhaustive enumeration of object pairs and of mutation attempts on the real classes, against a content model',
    'C25': 'exhaustive exploration of operation histories on the real code, compared with fresh-process results',
    'C26': 'stateless model checking of two real threads: all schedules up to a preemption bound under a controlled scheduler',
    'C27': 'exhaustive enumeration of scripted entropy sources on the real code',
    'C28': 'exhaustive enumeration of bounded byte-string structures on the real check, against a reference grammar',
}
DEFAULT = 'bounded exhaustive enumeration on the real code, every execution compared with an independent reference model'
NOTE = ('Every case of the stated bounded space is executed on the code imported from /repo and compared with an independent reference model (mc/ref), which mc/selftest.py '
        'checks against published vectors. Holds within the bounds; inputs beyond them rest on the code treating them alike. Trusted: CPython, hashlib, and the reference model.')

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
have = {f[:3].upper() for f in os.listdir(os.path.join(ROOT, 'mc', 'checks')) if re.match(r'c\d\d\.py$', f)}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': '%s mc/run.py %s --tier quick' % (PY, i), 'thorough_cmd': '%s mc/run.py %s --tier thorough' % (PY, i),
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'model checking: ' + TECH.get(i, DEFAULT), 'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': PY + ' mc/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks drive the public interface, and replace the entropy source or trace threads from outside. Known findings: known_findings.json.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'unclaimed')

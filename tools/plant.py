#!/usr/bin/env python3
"""Build the planted bugs of tools/plants.py into /verif/seeded/, checking each in a scratch copy.

usage: plant.py [ID ...]            build (patch, demo, tests), all or some
       plant.py --check [ID ...]    also run the property's quick check against the planted copy
       plant.py --only-check [ID ...]   only run the checks
Nothing here is used by a check.  /repo is never touched: every change is made in a copy.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
RESULTS = os.path.join(HERE, 'plant_results.json')
SEEDED = os.path.join(VERIF, 'seeded')
sys.path.insert(0, HERE)
BASE = '2346c89'
BASELINE = json.load(open('/opt/vp/BASELINE.json'))

DEMO_SH = '''#!/bin/bash
# cwd: the repository.  Exit 0: the property holds for the demonstrated input.
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent \\
    exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, **kw)

def original_lines(path):
    out = sh(['git', '-C', '/repo', 'blame', '-s', '--abbrev=7', path]).stdout.splitlines()
    return [l.startswith('^' + BASE[:7]) or l.startswith('^2346c') for l in out]

def stable_names():
    b = BASELINE
    for k in ('stable', 'passed', 'tests', 'pass'):
        if k in b: return set(b[k])
    raise SystemExit('baseline keys: %s' % list(b))

def run_tests(copy):
    t = tempfile.mkdtemp()
    try:
        s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + copy)
        f = os.path.join(t, 'test.sh'); open(f, 'w').write(s)
        out = os.path.join(t, 'out.json')
        sh(['bash', f, out])
        r = json.load(open(out))
        passed = set(r.get('passed', r.get('pass', [])))
        return sorted(stable_names() - passed)
    finally:
        shutil.rmtree(t)

def build(spec, check, only):
    pid = spec['id']; d = os.path.join(SEEDED, pid)
    top = tempfile.mkdtemp(prefix='plant_'); copy = os.path.join(top, 'repo')
    msg = []
    try:
        sh(['cp', '-a', '/repo', copy])
        for path, old, new in spec['edits']:
            f = os.path.join(copy, path); s = open(f).read()
            if s.count(old) != 1:
                return pid, 'BAD', 'edit matches %d times in %s: %r' % (s.count(old), path, old)
            open(f, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', copy, 'diff', '--no-color']).stdout
        if not only:
            # every removed line must be a line of the original repository
            cur, n, orig = None, 0, None
            removed = 0
            for l in diff.splitlines():
                if l.startswith('--- a/'): cur = l[6:]; orig = original_lines(cur)
                elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
                elif l.startswith('-'):
                    removed += 1
                    if not orig[n] and not spec.get('own'): return pid, 'BAD', 'changes a line of my own: %s' % l
                    n += 1
                elif l.startswith(' '): n += 1
            if not removed: msg.append('(only adds lines)')
            if spec.get('own'): d = os.path.join(top, 'seed')   # kept only as a specification
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'].strip('\n') + '\n')
            json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo'); b = sh(['bash', os.path.join(d, 'demo.sh')], cwd=copy)
            if a.returncode != 0: return pid, 'BAD', 'demo fails on the unchanged tree: ' + a.stderr[-600:]
            if b.returncode == 0: return pid, 'BAD', 'demo passes with the patch'
            if 'AssertionError' not in b.stderr: msg.append('demo: ' + b.stderr.strip().splitlines()[-1][:100])
            lost = run_tests(copy)
            if lost: return pid, 'BAD', 'tests fail: %s' % lost[:4]
        if check or only:
            props = [spec['property']] + spec.get('also', [])
            for p in props:
                env = dict(os.environ, MC_REPO=copy, VERIF_TIER='quick', VERIF_SEED='1', MC_EVID=os.path.join(top, 'ev'))
                try:
                    r = sh(['/opt/venv/bin/python', os.path.join(VERIF, 'mc/run.py'), p], cwd=VERIF, env=env, timeout=1200)
                    hit = r.returncode == 1 and ('VIOLATION property=%s' % p) in r.stdout
                    msg.append('%s:%s' % (p, 'CAUGHT' if hit else 'MISSED rc=%d %s' % (r.returncode, (r.stdout+r.stderr)[-200:].replace('\n', ' / '))))
                except subprocess.TimeoutExpired:
                    msg.append('%s:TIMEOUT' % p)
        return pid, 'ok', ' '.join(msg)
    finally:
        shutil.rmtree(top)

def main():
    args = sys.argv[1:]
    check = '--check' in args; only = '--only-check' in args
    ids = [a for a in args if not a.startswith('--')]
    import plants
    specs = [s for s in plants.SPECS if not ids or s['id'] in ids or s['property'] in ids]
    workers = int(os.environ.get('WORKERS', '4'))
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(lambda s: build(s, check, only), specs):
            print('%-28s %-4s %s' % r, flush=True)
            if check or only:
                hits = dict(re.findall(r'(C\d\d):(CAUGHT|MISSED|TIMEOUT)', r[2]))
                known = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
                known.setdefault(r[0], {}).update(hits)
                known = {k: known[k] for k in [s['id'] for s in plants.SPECS] if k in known}
                json.dump(known, open(RESULTS, 'w'), indent=0)
main()

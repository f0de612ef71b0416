#!/usr/bin/env python3
"""Mutation runs, to find what the checks do not see (a development aid; no check uses it).

mutate.py gen            list the mutants of /repo/bitforge in OUT/mutants.json
mutate.py tests          which of them pass the stable tests -> OUT/alive.json
mutate.py checks [FILE]  run the checks on those -> OUT/verdicts.json (resumable)
mutate.py report         the survivors
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
OUT = os.environ.get('OUT', '/tmp/w/mut'); os.makedirs(OUT, exist_ok=True)
REPO = '/repo'; VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 'encoding.py': 'C10 C01 C17 C23 C09', 'tools.py': 'C10 C14 C09', 'errors.py': 'C23', 'networks.py': 'C31 C03 C02', 'privkey.py': 'C02 C06 C24 C27 C23 C12', 'pubkey.py': 'C04 C24 C23 C12',
 'address.py': 'C03 C24 C23 C13', 'hdprivkey.py': 'C08 C07 C24 C23 C27', 'hdpubkey.py': 'C08 C07 C24 C23', 'signature.py': 'C28', 'unit.py': 'C21 C22', 'uri.py': 'C22 C23',
 'script/opcode.py': 'C30 C15 C14 C24 C16 C23', 'script/instruction.py': 'C30 C14 C15 C24 C19 C23', 'script/script.py': 'C14 C16 C15 C30 C24 C13 C11 C19 C23', 'script/interpreter.py': 'C18 C20 C19',
 'transaction/input.py': 'C09 C12 C11 C24 C13 C23', 'transaction/output.py': 'C09 C13 C24 C23', 'transaction/transaction.py': 'C09 C11 C24 C12 C23',
 'utils/ecdsa.py': 'C05 C06', 'utils/ellipticcurve.py': 'C05 C04', 'utils/numbertheory.py': 'C05 C04', 'utils/encoding.py': 'C29 C01 C23', 'utils/intbytes.py': 'C10 C29 C01', 'utils/secp256k1.py': 'C05 C04',
 'compat.py': 'C10 C14', '__init__.py': 'C23',
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitAnd}

def variants(node):
    """Replacement nodes for an expression or statement."""
    if isinstance(node, ast.Compare):
        for i, o in enumerate(node.ops):
            for n in CMP.get(type(o), []):
                m = copy.deepcopy(node); m.ops[i] = n(); yield m
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not (isinstance(node.op, ast.Mod) and isinstance(node.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(node.left, 'value', ''), str)):
        m = copy.deepcopy(node); m.op = BIN[type(node.op)](); yield m
    elif isinstance(node, ast.BoolOp):
        m = copy.deepcopy(node); m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); yield m
        for i in range(len(node.values)):
            m = copy.deepcopy(node); del m.values[i]
            yield m.values[0] if len(m.values) == 1 else m
    elif isinstance(node, ast.UnaryOp):
        yield copy.deepcopy(node.operand)
    elif isinstance(node, ast.Constant):
        if node.value is True or node.value is False: yield ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield ast.Constant(node.value + 1)
            if node.value: yield ast.Constant(node.value - 1)
        elif isinstance(node.value, bytes): yield ast.Constant(node.value + b'\0')
    elif isinstance(node, ast.IfExp):
        yield copy.deepcopy(node.body); yield copy.deepcopy(node.orelse)
    elif isinstance(node, (ast.If, ast.While)):
        m = copy.deepcopy(node); m.test = ast.UnaryOp(ast.Not(), m.test); yield m
        if isinstance(node, ast.If): m = copy.deepcopy(node); m.test = ast.Constant(False); yield m
    elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)): yield ast.Pass()
    elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant): yield ast.Return(ast.Constant(None))
    elif isinstance(node, ast.Call) and node.args and len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name) and node.func.id in ('bytes', 'tuple', 'list', 'int', 'round', 'bytearray', 'set', 'sorted', 'reversed', 'abs', 'str'):
        yield copy.deepcopy(node.args[0])
    elif isinstance(node, ast.ExceptHandler): pass

def sites(tree):
    """(node, skip) in order; constants of docstrings and f-string pieces left out"""
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): doc.add(id(n.value))
    for n in ast.walk(tree):
        if id(n) not in doc and hasattr(n, 'lineno'): yield n

def segment(src, lines, node):
    a = sum(len(l) for l in lines[:node.lineno - 1]) + node.col_offset
    b = sum(len(l) for l in lines[:node.end_lineno - 1]) + node.end_col_offset
    return a, b

def gen():
    out = []
    only = os.environ.get('ONLY', '').split()
    for rel in CHECKS:
        if only and rel not in only: continue
        p = os.path.join(REPO, 'bitforge', rel)
        raw = open(p, 'rb').read(); src = raw.decode()
        if rel == 'utils/ellipticcurve.py': src_end = src.find('class FailedTest')
        else: src_end = len(src)
        lines = raw.splitlines(keepends=True)
        seen = set()
        for n in sites(ast.parse(src)):
            for m in variants(n):
                a, b = segment(raw, lines, n)
                if a >= src_end: continue
                ast.fix_missing_locations(m)
                text = ast.unparse(m)
                if isinstance(m, ast.expr): text = '(' + text + ')'
                elif '\n' in text:
                    text = text.replace('\n', '\n' + ' ' * n.col_offset)
                new = raw[:a] + text.encode() + raw[b:]
                if new in seen: continue
                seen.add(new)
                try: compile(new, p, 'exec')
                except SyntaxError: continue
                out.append({'file': rel, 'line': n.lineno, 'a': a, 'b': b, 'text': text, 'old': raw[a:b].decode()[:200]})
    json.dump(out, open(os.path.join(OUT, 'mutants.json'), 'w'))
    print(len(out), 'mutants')

def make(m, top):
    copyd = os.path.join(top, 'repo'); os.makedirs(copyd)
    for d in ('bitforge', 'tests', 'pytest.ini', 'setup.cfg', 'setup.py', 'README.md'):
        s = os.path.join(REPO, d)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(copyd, d), ignore=shutil.ignore_patterns('__pycache__'))
        elif os.path.exists(s): shutil.copy(s, copyd)
    p = os.path.join(copyd, 'bitforge', m['file']); raw = open(p, 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['text'].encode() + raw[m['b']:])
    return copyd

def test(k_m):
    k, m = k_m
    top = tempfile.mkdtemp(prefix='mut_')
    try:
        c = make(m, top)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
        r = subprocess.run(['timeout', '60', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'] , cwd=c, env=env, capture_output=True, text=True)
        return k, r.returncode == 0
    finally: shutil.rmtree(top)

def check(k_m):
    k, m = k_m
    top = tempfile.mkdtemp(prefix='mut_')
    try:
        c = make(m, top)
        env = dict(os.environ, MC_REPO=c, MC_STOP='1', MC_WORKERS='1', MC_EVID=os.path.join(top, 'ev'))
        for p in CHECKS[m['file']].split():
            try: r = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'mc/run.py'), p], cwd=VERIF, env=env, capture_output=True, text=True, timeout=2400)
            except subprocess.TimeoutExpired: return k, 'timeout ' + p
            if r.returncode == 1: return k, p
            if r.returncode: return k, 'rc %d %s' % (r.returncode, p)
        return k, None
    finally: shutil.rmtree(top)

def load(n):
    p = os.path.join(OUT, n); return json.load(open(p)) if os.path.exists(p) else {}

def main():
    cmd = sys.argv[1]
    if cmd == 'gen': return gen()
    ms = json.load(open(os.path.join(OUT, 'mutants.json')))
    name, f, todo = {'tests': ('alive.json', test, range(len(ms))), 'checks': ('verdicts.json', check, [int(k) for k, v in load('alive.json').items() if v]), 'report': (None, None, None)}[cmd]
    if cmd == 'report':
        v = load('verdicts.json')
        print(len(ms), 'mutants', sum(1 for x in load('alive.json').values() if x), 'pass the tests', sum(1 for x in v.values() if x), 'caught')
        for k, x in sorted(v.items(), key=lambda kv: int(kv[0])):
            if not x or x.startswith(('timeout', 'rc')): m = ms[int(k)]; print(k, m['file'], m['line'], repr(m['old'][:110]), '->', repr(m['text'][:110]), x or '')
        return
    done = load(name)
    todo = [k for k in todo if str(k) not in done]
    lock = threading.Lock(); count = [0]
    with ThreadPoolExecutor(int(os.environ.get('WORKERS', '8'))) as ex:
        for k, v in ex.map(f, [(k, ms[k]) for k in todo]):
            done[str(k)] = v
            count[0] += 1
            if count[0] % 10 == 0: json.dump(done, open(os.path.join(OUT, name), 'w'))
    json.dump(done, open(os.path.join(OUT, name), 'w'))
    print(name, len(done))
main()

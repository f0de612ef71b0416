"""C26: two real threads under a controlled scheduler."""
import os, sys, threading, time
from ..common import *
from .. import ops, core, near
from ..ops import OPS, show
from ..proc import in_child, split

ID = 'C26'
RULE = ('State: (two operations on separate objects, where each is suspended). Two real threads run the real code; a trace function suspends a thread before a chosen '
        'source line of the library and hands over to the other. For every ordered pair of operations of a group (an operation with itself included) every schedule of '
        'the bounded space is run in its own forked process, so that each starts from the same state. Both results, and those of both operations when '
        'called again afterwards, must equal what the operation gives alone. A thread that waits for a lock of the suspended one is detected by a timeout, '
        'and the suspended one is resumed.')
BOUNDS = {
    'quick': 'universe: 2700 operations (mc/ops.py, and mc/near.py with close arguments); ordered pairs chosen by coverage: every source line of the library that two operations reach is reached by both operations '
             'of at least 3 chosen pairs (as many as exist; one for slow operations); one preemption before the first and last execution of every distinct line of the functions that both operations of the pair run, and before the first line '
             'of every other one; the same before every bytecode instruction for one pair per line; two preemptions (one in each thread, first executions) where that gives at most 120 schedules; every line also by a pair in which a given local variable of the function differs, for every local variable (each line and instruction of these functions); operations that run differently when called again (there are none now) also after a first call of one or both, and against themselves (also with two preemptions); 22 functions after up to 3000 calls with other arguments, at the counts where one runs instructions that none before it ran (some 100000 schedules, each in its own process)',
    'thorough': 'at least 10 chosen pairs per line; every line; the first 12 and the last execution; all bytecode instructions of shared functions for 3 pairs per line; two preemptions where that gives at most 4000 schedules; also all ordered pairs of 12 groups of 84 related operations',
}
ASSUMPTIONS = ['Switches happen between source lines or bytecode instructions of the library (not inside hashlib or the ecdsa package)']
GROUPS = {
    'ints': ['int 5/4', 'int 256 le', 'int 0/4', 'decode', 'decode le', 'varint', 'intbytes', 'num', 'num decode', 'num minimal'],
    'text': ['b58', 'b58 2', 'b58 decode', 'b58 bad', 'hex', 'hex bad', 'hashes', 'DER a', 'DER bad'],
    'buffer': ['Buffer read', 'Buffer short', 'Buffer write', 'Input d bytes', 'Output a bytes', 'Script cut'],
    'unit': ['Unit a', 'Unit b', 'fiat', 'URI label', 'URI label 2', 'URI message', 'URI dict', 'URI.is_valid bad'],
    'key': ['PrivateKey(1,livenet,True).to_wif', 'PrivateKey(2,testnet,False).to_wif', 'from_wif(2,livenet,True)', 'from_wif(1,testnet,False)', 'PublicKey.from_hex(2,testnet,True)', 'PublicKey(1,livenet,False).to_bytes', 'PrivateKey() a', 'PrivateKey() b',
            'PrivateKey(2,livenet,True).to_public_key', 'PrivateKey(2,testnet,False).to_address', 'PrivateKey(0)'],
    'address': ['Address(livenet,pubkey).to_string', 'Address(testnet,script).to_string', 'Address.from_string(livenet,script)', 'Address.from_string(testnet,pubkey)', 'Address.from_string(bad)', 'PublicKey(1,livenet,True).to_address', "networks.find(5, 'scripthash')"],
    'script': ['Script pkh fresh, hash', 'Script m1 fresh, hash', 'Script sh fresh, hash', 'Script.from_string pkh0', 'Script.from_string in2', 'Script.from_string(bad)', 'Script in2 parts', 'Script m2 parts', 'Script.compile b', 'Instruction bad', 'Opcode names'],
    'transaction': ['Transaction 1 from_hex', 'Transaction 6 from_hex', 'Transaction 3 id', 'Input addr', 'Output multi1 bytes', 'Output data', 'Transaction.from_bytes(cut)'],
    'sign': ['sign addr 0', 'sign both 1', 'sign multi 0', 'sign multi 0 single', 'sign(1, f9e0)', 'verify(1, other digest)'],
    'interpreter': ['verify if', 'verify alt', 'verify p2sh args', 'verify cltv', 'verify minimal', 'verify open if', 'verify equal', 'verify false', 'verify arith', 'verify alt trip', 'verify alt trip 2', 'verify nested if', 'verify nested if 2', 'verify minimal off', 'verify p2sh off', 'verify multisig', 'verify checksig', 'verify many ops'],
    'hd': ['HDPublicKey 0 to_string', 'HDPublicKey.from_string 5', 'HDPrivateKey 4 to_string', 'HDPrivateKey.from_string 1'],
    'curve': ['tiny multiples', 'tiny2 multiples', 'inverse', 'sqrt', 'nonce 256', 'nonce 512', 'sec', 'generator * 7'],
}
SLOW = [('HDPrivateKey 0 derive(0)', 'HDPrivateKey 5 derive(0)'), ('HDPublicKey 0 derive(0)', 'HDPublicKey 1 derive(1)'), ('HDPublicKey 0 derive(0)', 'HDPrivateKey 0 derive(0, hardened)'), ('E.sign', 'E.sign'), ('E.verify', 'E.verify wrong'), ('from_seed a', 'from_seed b')]
for _n, (_f, _args, _cost) in near.FUNCS.items():
    for _k, _a in enumerate(_args[:6] if _cost > 5 else _args): OPS.append((frozenset(), 'near %s %d' % (_n, _k), lambda f=_f, a=_a: f(a), _cost))
MANY = ('limits', 'operations alone', 'operations after 1', 'operations after 2 1 3 2 4 5')      # each is many calls, which are also there one by one
INDEX = {}
for _i, _o in enumerate(OPS): INDEX.setdefault(_o[1], _i)
BASE = {}       # operation -> what it gives alone
POINTS = {}     # operation -> its preemption points (lines)
TIME = {}
EVENTS = {}     # how many lines it executes
DATA = {}       # what its functions work on: (file, first line of the function, local variable) -> digest of the value when it first returns
WARM = {}       # its preemption points when called again, if they differ from those of the first call
OTHER = {}      # the functions in which they differ
PLAN = []       # (a, b, depth of the pair, or the functions of interest)
LINES = {}


def index(name):
    if name in INDEX: return INDEX[name]
    prefix = name.split('(')[0] + '(' + name.split('(')[1].split(',')[0]
    return next(i for n, i in INDEX.items() if n.startswith(prefix) and (', own' in n) == ('own' in name))


def digest(v):
    """A digest of a value that runs no code of the library and does not depend on addresses."""
    import enum, zlib
    def text(v, depth):
        t = type(v).__name__
        if isinstance(v, enum.Enum): return v._name_
        if v is None or isinstance(v, (int, float, complex)): return t + object_repr(v)
        if isinstance(v, str): return t + str.__str__(v)[:3000]
        if isinstance(v, (bytes, bytearray)): return t + bytes(bytearray.__getitem__(v, slice(3000)) if isinstance(v, bytearray) else bytes.__getitem__(v, slice(3000))).hex()
        if depth > 5: return t
        if isinstance(v, tuple): return t + '(%s)' % ','.join(text(x, depth + 1) for x in list(tuple.__iter__(v))[:40])
        if isinstance(v, list): return t + '[%s]' % ','.join(text(x, depth + 1) for x in list(list.__iter__(v))[:40])
        if isinstance(v, dict): return t + '{%s}' % ','.join(sorted(text(a, depth + 1) + ':' + text(b, depth + 1) for a, b in list(dict.items(v))[:40]))
        if isinstance(v, (set, frozenset)): return t + '{%s}' % ','.join(sorted(text(x, depth + 1) for x in v))
        inner = getattr(v, '__dict__', None) if not callable(v) and not isinstance(v, type(os)) else None
        return t + (text(dict(inner), depth + 1) if isinstance(inner, dict) else '')
    def object_repr(v):
        for c in (bool, int, float, complex):
            if isinstance(v, c): return c.__repr__(v)
        return 'None'
    return zlib.crc32(text(v, 0).encode('utf-8', 'surrogatepass'))


def spots(thunk, upto, opcodes=None, data=None):
    """Preemption points of an operation: (file, first line of the function, line or instruction, occurrence).  With opcodes, a set of
    functions (file, first line): the points before their bytecode instructions."""
    counts, order, returned = {}, [], set()
    what = 'opcode' if opcodes else 'line'
    def local(frame, event, arg):
        if data is not None and event == 'return':
            c = frame.f_code
            key = (c.co_filename, c.co_firstlineno)
            if key not in returned:
                returned.add(key)
                for name, v in list(frame.f_locals.items()): data[key + (name,)] = digest(v)
        if event == what:
            key = (frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lasti if opcodes else frame.f_lineno)
            if key not in counts: order.append(key)
            counts[key] = counts.get(key, 0) + 1
        return local
    def glob(frame, event, arg):
        c = frame.f_code
        if not c.co_filename.startswith(LIBRARY): return None
        if opcodes:
            if (c.co_filename, c.co_firstlineno) not in opcodes: return None
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return local
    ops.fresh()
    if opcodes: sys._getframe().f_trace_opcodes = True       # 3.12 reports instructions only if set here
    sys.settrace(glob)
    call(thunk)
    sys.settrace(None)
    ops.fresh()
    out = []
    for key in order:
        n = counts[key]
        for k in range(1, min(n, upto) + 1): out.append(key + (k,))
        if n > upto: out.append(key + (n,))
    return out, sum(counts.values()), counts


LIBRARY = core.REPO + os.sep


def alone(i):
    t = time.time()
    r = repr(show(call(OPS[i][2])[1]))
    return repr((r, time.time() - t))


def setup(tier):
    import gc, ast
    gc.collect(); gc.freeze()
    upto = 12 if tier == 'thorough' else 1
    def examine(i):
        out, t = ast.literal_eval(in_child(lambda: alone(i)))
        if OPS[i][1] in MANY or t > 0.3 + (0.5 if OPS[i][3] >= 10 else 0): return repr((out, t, [], 0, None, {}, set()))
        def twice():
            data = {}
            points, events, counts = spots(OPS[i][2], upto, None, data)
            again, _, counts2 = spots(OPS[i][2], upto)
            other = {k[:2] for k in counts.keys() | counts2.keys() if counts.get(k) != counts2.get(k)}
            return repr((points, events, again if other else None, data, other))
        return repr((out, t) + ast.literal_eval(in_child(twice)))
    w = max(1, min(16, int(os.environ.get('MC_WORKERS') or os.cpu_count() or 1)))
    for part in split([lambda k=k: repr([(i, examine(i)) for i in range(k, len(OPS), w)]) for k in range(w)]):
        for i, text in ast.literal_eval(part): BASE[i], TIME[i], POINTS[i], EVENTS[i], WARM[i], DATA[i], OTHER[i] = ast.literal_eval(text)
    choose(3 if tier == 'quick' else 10)
    DATA.clear()
    gc.collect(); gc.freeze()


def choose(times):
    """The pairs: every line that two operations (with different results, if there are any) reach is reached by both of at least so many pairs."""
    number, ids = {}, []
    for i in sorted(POINTS):
        for p in POINTS[i]:
            if p[:3] not in number: number[p[:3]] = len(number); ids.append(p[:3])
    mask, users = {}, [[] for _ in ids]
    for i in sorted(POINTS):
        m = 0
        for k in {number[p[:3]] for p in POINTS[i]}: m |= 1 << k; users[k].append(i)
        mask[i] = m
    cost = lambda i: len(POINTS[i]) * (0.003 + 2e-6 * EVENTS[i] + 0.003 * OPS[i][3])      # not the measured time: the choice must not depend on it
    used = set()
    for round_ in range(times):
        need = 0
        for k in range(len(ids)):
            if len(users[k]) > 1: need |= 1 << k
        order = sorted((k for k in range(len(ids)) if need >> k & 1), key=lambda k: (len(users[k]), ids[k]))
        for k in order:
            if not need >> k & 1: continue
            some = sorted(users[k], key=lambda i: (-bin(mask[i] & need).count('1') / (0.2 + cost(i)), i))[:24]
            best = None
            for a in some:
                for b in some:
                    if a == b or (a, b) in used: continue
                    if round_ and times < 10 and OPS[a][3] + OPS[b][3] >= 10: continue      # slow ones once
                    gain = bin(mask[a] & mask[b] & need).count('1') / (0.2 + cost(a) + cost(b) / 2)
                    if BASE[a] == BASE[b]: gain /= 4
                    if (b, a) in used: gain /= 2
                    if best is None or gain > best[0]: best = (gain, a, b)
            if best is None: need &= ~(1 << k); continue
            _, a, b = best
            used.add((a, b)); PLAN.append((a, b, round_))
            need &= ~(mask[a] & mask[b])
    # Every line also by a pair in which a given local variable of its function differs, if there are two operations of that kind.
    groups = {}
    for i in sorted(DATA):
        for k, v in DATA[i].items(): groups.setdefault(k, {}).setdefault(v, []).append(i)
    need = {}
    for k, vs in groups.items():
        of = sum(1 << number[x] for x in ids if x[:2] == k[:2])
        once = twice = 0
        for some in vs.values():
            m = 0
            for i in some: m |= mask[i]
            m &= of
            twice |= once & m; once |= m
        if twice: need[k] = twice
    def gains(a, b):
        x, y, both = DATA[a], DATA[b], mask[a] & mask[b]
        return {k: both & need[k] for k in x.keys() & y.keys() & need.keys() if x[k] != y[k] and both & need[k]}
    def take(g):
        for k, m in g.items():
            need[k] &= ~m
            if not need[k]: del need[k]
    LINES['variables'] = sum(bin(m).count('1') for m in need.values())
    for a, b, _ in PLAN: take(gains(a, b))
    for k in sorted(need):
        while k in need:
            line = need[k] & -need[k]
            vs = [[i for i in some if mask[i] & line] for some in groups[k].values()]
            vs = sorted((v for v in vs if v), key=lambda some: (min(cost(i) for i in some), some))[:6]
            some = [i for v in vs for i in sorted(v, key=lambda i: (cost(i), i))[:3]]
            best = None
            for a in some:
                for b in some:
                    if DATA[a][k] == DATA[b][k]: continue
                    g = gains(a, b)
                    gain = sum(bin(m).count('1') for m in g.values()) / (0.2 + cost(a) + cost(b) / 2)
                    if best is None or gain > best[0]: best = (gain, a, b, g)
            _, a, b, g = best
            PLAN.append((a, b, tuple(sorted({x[:2] for x in g}))))
            take(g)
    # Operations that run differently the second time, against themselves
    need, of, at = {}, {}, {}
    for i in sorted(OTHER):
        of[i] = {p[:3] for p in POINTS[i] + (WARM[i] or []) if p[:2] in OTHER[i]}
        for k in of[i]:
            need[k] = 2 if times < 10 else 6
            at.setdefault(k, []).append(i)
    for k in sorted(need):
        while need[k] > 0:
            best = None
            for i in sorted(at[k], key=lambda i: (cost(i), i))[:60]:
                if (i, i, 'self') in used: continue
                gain = sum(need[x] > 0 for x in of[i]) / (0.2 + cost(i))
                if best is None or gain > best[0]: best = (gain, i, of[i])
            if best is None: break
            used.add((best[1], best[1], 'self'))
            PLAN.append((best[1], best[1], 'self'))
            for x in best[2]: need[x] -= 1
    LINES['total'] = len(ids); LINES['two'] = sum(1 for u in users if len(u) > 1)


def cases(tier):
    for a, b, depth in PLAN:
        if isinstance(depth, tuple):
            points = [p for p in POINTS[a] if p[:2] in depth]
            step = max(8, int(400 * 0.012 / (0.012 + TIME[a] + TIME[b])))
            for lo in range(0, len(points), step): yield ('data', OPS[a][1], OPS[b][1], a, b, tuple(points[lo:lo + step]), depth if lo == 0 else ())
            continue
        if depth == 'self':
            for warm in (), (a,):
                points = [p for p in ((WARM[a] if warm else None) or POINTS[a]) if p[:2] in OTHER[a]]
                if points: yield ('self', OPS[a][1], OPS[b][1], a, b, warm, tuple(points), tier)
            continue
        n = len(POINTS[a]); step = max(8, int(400 * 0.012 / (0.012 + TIME[a] + TIME[b])))
        for lo in range(0, n, step): yield ('chosen', OPS[a][1], OPS[b][1], a, b, depth, lo, lo + step, tier)
    if tier == 'thorough':
        for g, names in GROUPS.items():
            for a in names:
                for b in names: yield ('pair', a, b, tier)
    for name in near.MANY:
        if tier == 'thorough' or name not in ('to_public_key', 'HDPublicKey.derive'): yield ('full', name, '', tier)
    for a, b in SLOW if tier == 'thorough' else ():
        for lo in range(0, len(POINTS[index(a)]), 12): yield ('slow', a, b, lo)


class Task(threading.Thread):
    """One operation, suspended before a given point."""

    def __init__(self, thunk, point, opcode=False):
        threading.Thread.__init__(self, daemon=True)
        self.thunk, self.point, self.seen, self.opcode = thunk, point, 0, opcode
        self.out = None
        self.stopped = threading.Event()      # suspended, or finished
        self.resume = threading.Event()

    def trace(self, frame, event, arg):
        c = frame.f_code
        if (c.co_filename, c.co_firstlineno) != self.point[:2]: return None
        if self.opcode: frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if (event == 'opcode' and frame.f_lasti == self.point[2]) if self.opcode else (event == 'line' and frame.f_lineno == self.point[2]):
            self.seen += 1
            if self.seen == self.point[3]:
                sys.settrace(None)
                self.stopped.set()
                self.resume.wait()
                return None
        return self.local

    def run(self):
        try:
            if self.opcode: sys._getframe().f_trace_opcodes = True
            if self.point is not None: sys.settrace(self.trace)
            k, v = call(self.thunk)
            sys.settrace(None)
            self.out = repr(show(v))
        except BaseException as e:
            self.out = 'the thread ended with %r' % (e,)
        self.stopped.set()
        self.done = True

    done = False


def schedule(a, pa, b, pb, opcode=False, warm=()):
    """A message if the schedule gives a wrong result; 'blocked' marks are returned in the second element."""
    ops.fresh()
    for i in warm: call(OPS[i][2])
    ops.fresh()
    names = OPS[a][1], OPS[b][1]
    if warm: names = tuple('%s (called before)' % n if i in warm else n for i, n in zip((a, b), names))
    return interleave(OPS[a][2], pa, OPS[b][2], pb, opcode, 0.4 + 30 * (TIME[a] + TIME[b]), names, (BASE[a], BASE[b]))


def interleave(fa, pa, fb, pb, opcode, wait, names, base):
    A, Bt = Task(fa, pa, opcode), Task(fb, pb)
    blocked = False
    A.start()
    if not A.stopped.wait(60 + wait): return 'the first thread does not stop', False
    Bt.start()
    if not Bt.stopped.wait(wait): blocked = True
    A.resume.set()
    if pb is not None and not blocked:
        A.join(wait)
        if A.is_alive(): blocked = True
    Bt.resume.set()
    A.join(120); Bt.join(120)
    where = '%s suspended before %s' % (names[0], place(pa)) + (', %s before %s' % (names[1], place(pb)) if pb else ', %s in between' % names[1])
    if A.is_alive() or Bt.is_alive(): return 'deadlock: %s' % where, blocked
    for t, n, want in zip((A, Bt), names, base):
        if t.out != want: return '%s: %s gives %s, alone it gives %s' % (where, n, diff(t.out, want), diff(want, t.out)), blocked
    for f, n, want in zip((fa, fb), names, base):
        got = repr(show(call(f)[1]))
        if got != want: return 'after %s: %s gives %s, alone it gives %s' % (where, n, diff(got, want), diff(want, got)), blocked
    return '', blocked


def novelties(f, arg, count):
    """The calls f(arg(k)) that execute an instruction of the library which none of the calls before them did, if these were many."""
    mon, new, out = sys.monitoring, [0], []
    mon.use_tool_id(4, 'c26')
    def seen(code, offset):
        if code.co_filename.startswith(LIBRARY): new[0] += 1
        return mon.DISABLE
    mon.register_callback(4, mon.events.INSTRUCTION, seen)
    mon.set_events(4, mon.events.INSTRUCTION)
    for k in range(count):
        new[0] = 0
        call(f, arg(k))
        if new[0]: out.append(k)
    mon.set_events(4, 0)
    mon.free_tool_id(4)
    return out


def full(case, rep):
    """One function after many calls with different arguments: at those counts where something new happens (a table is emptied, say),
    that call against others, each suspended before every line of the library."""
    import ast
    name, tier = case[1], case[3]
    f, arg, count = near.MANY[name]
    late = [k for k in ast.literal_eval(in_child(lambda: repr(novelties(f, arg, count)))) if k >= 2][-4:]
    base = {}
    def thunk(k): return lambda: f(arg(k))
    def alone_(k):
        if k not in base: base[k] = in_child(lambda: repr(show(call(thunk(k))[1])))
        return base[k]
    n = 0
    for k in late:
        others = [x for x in dict.fromkeys((0, k // 2, k - 1, k + 1)) if 0 <= x < count and x != k]
        pairs = [(k, x) for x in others] + [(x, k) for x in others]
        for a, b in pairs: alone_(a), alone_(b)
        def go():
            done = 0
            for x in range(k): call(thunk(x))
            for a, b in pairs:
                points = ast.literal_eval(in_child(lambda: repr(spots(thunk(a), 1)[0])))
                for p in points[:400 if tier == 'thorough' else 80]:
                    text = in_child(lambda: repr(interleave(thunk(a), p, thunk(b), None, False, 3, ['%s(%s) after %d other calls' % (name, short(arg(x)), k) for x in (a, b)], (base[a], base[b]))))
                    try:
                        m = ast.literal_eval(text)[0]
                    except (ValueError, SyntaxError):
                        m = text
                    if m: return repr((done, m))
                    done += 1
            return repr((done, ''))
        done, m = ast.literal_eval(in_child(go))
        if m: rep.fail(m)
        n += done
        for a, b in pairs: rep.state(name, k, a, b)
    rep.step(n); rep.traces += n
    rep.outcome('unaffected, after many calls', n)


def place(p): return '%s:%d (execution %d)' % (os.path.relpath(p[0], core.REPO), p[2], p[3])


def diff(x, y):
    at = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), 0)
    at = max(0, at - 40)
    return '...' + x[at:at + 200]


def run(case, rep):
    import ast
    kind, na, nb = case[:3]
    if kind == 'full': return full(case, rep)
    if not POINTS: setup('quick')
    a, b = (index(na), index(nb)) if kind not in ('chosen', 'data', 'self') else case[3:5]
    first = lambda ps: [p for p in ps if p[3] == 1]
    if kind == 'slow':
        plan = [(p, None, False) for p in POINTS[a][case[3]:case[3] + 12]]
    elif kind == 'data':
        plan = [(p, None, False) for p in case[5]]
        if case[6] and TIME[a] + TIME[b] < 0.02:
            fine = ast.literal_eval(in_child(lambda: repr(spots(OPS[a][2], 1, set(case[6]))[0])))
            plan += [(p, None, True) for p in first(fine)]
    elif kind == 'self':
        _, _, _, _, _, warm, points, tier = case
        plan = [(p, None, False, warm) for p in points]
        some = first(points)
        both = [(p, q, False, warm) for p in some for q in some]
        plan += both[:900 if tier == 'quick' else 6000]
    elif kind == 'pair':
        plan = [(p, None, False) for p in POINTS[a]]
    else:
        depth, lo, hi, tier = case[5:]
        shared = {p[:2] for p in POINTS[b]}
        points, entered = [], set()
        for p in POINTS[a]:
            if p[:2] in shared or p[:2] not in entered or tier == 'thorough': points.append(p)
            entered.add(p[:2])
        plan = [(p, None, False) for p in points[lo:hi]]
        if WARM[a] is not None or WARM[b] is not None:       # something was remembered: also when one or both were called before
            again = [p for p in (WARM[a] or POINTS[a]) if p[:2] in shared or p[:2] in {x[:2] for x in WARM[b] or ()}]
            for warm in ((a, b), (b,), (a,)) if tier == 'thorough' else ((a, b), (b,)) if depth == 0 else ():
                plan += [(p, None, False, warm) for p in again[lo:hi]]
        if lo == 0 and tier == 'thorough' or lo == 0 and depth == 0 and len(points) <= hi:
            both = [(p, q, False) for p in first(points) for q in first(POINTS[b]) if q[:2] in {x[:2] for x in points}]
            if len(both) <= (120 if tier == 'quick' else 4000): plan += both
        if lo == 0 and depth < (1 if tier == 'quick' else 3) and TIME[a] + TIME[b] < (0.01 if tier == 'quick' else 0.2):
            fine = ast.literal_eval(in_child(lambda: repr(spots(OPS[a][2], 1, shared)[0])))
            if tier == 'quick': fine = first(fine)
            if len(fine) <= (700 if tier == 'quick' else 20000): plan += [(p, None, True) for p in fine]
    blocked = 0
    for pa, pb, opcode, *warm in plan:
        text = in_child(lambda: repr(schedule(a, pa, b, pb, opcode, *warm)))
        try:
            m, bl = ast.literal_eval(text)
        except (ValueError, SyntaxError):
            rep.fail('%s, %s: %s' % (na, nb, text))
        if m: rep.fail(m)
        rep.step(); rep.traces += 1
        rep.state(na, nb, pa, pb, opcode, *warm)
        blocked += bl
        if blocked > 5:
            rep.outcome('serialised by locks')
            break
    rep.outcome('unaffected, one preemption', sum(1 for p in plan if p[1] is None and not p[2]))
    rep.outcome('unaffected, one preemption inside a line', sum(1 for p in plan if p[2]))
    rep.outcome('unaffected, two preemptions', sum(1 for p in plan if p[1] is not None))
    if blocked: rep.outcome('waited for a lock', blocked)
    if kind == 'chosen' and case[6] == 0: rep.sample('%s while %s: %d schedules' % (na, nb, len(plan)))

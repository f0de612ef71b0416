"""C25: no result depends on what was called before."""
import re
from ..common import *
from .. import ops, entropy, near
from ..ops import OPS, result
from ..proc import in_child

ID = 'C25'
RULE = ('State: the history of operations of a process. The alphabet holds %d operations of all parts of the library on colliding objects (equal secrets, hashes, scripts, '
        'indexes; different networks, forms, flags, chain codes, neighbours), plus failing calls. The baseline of an operation is its result as the only call of a '
        'freshly forked process. Every history of the bounded space is run in its own forked process (objects are kept and shared within it) and every result must '
        'equal the baseline. A single Interpreter is also driven through all histories of verifications up to depth 3.' % len(OPS))
BOUNDS = {
    'quick': 'all histories of length 2 of operations of a common family (~80000 processes); 4 complete sequences of all operations, twice around; every cheap operation 270 or 1100 times, and one of each kind of expensive ones 270 times; '
             'all histories of length 3 over 58 verifications on one Interpreter (195112); ' + str(len(near.FUNCS)) + ' functions (their failing paths too) with 3 to 132 arguments close to each other (equal in their first, last or middle bytes, length, or modulo powers of two), all ordered pairs; 24 functions with 150 to 3000 different arguments, there and back',
    'thorough': 'all histories of length 2 of any two operations (432000 processes); length 3 over the operations of every family with a distinct first (each with all pairs of 24 others, evenly spread)',
}
ASSUMPTIONS = ['The nonce entropy of signatures is scripted, so that signatures are reproducible.', 'fork() copies all state that the library can keep in a process']
BASE = {}
CHEAP = 5          # ms


def stem(name): return re.sub(r'[0-9]+|\(.*?\)', '', name)


def related(i, j): return bool(OPS[i][0] & OPS[j][0])


def setup(tier):
    import gc
    gc.collect(); gc.freeze()
    for i in range(len(OPS)):
        BASE[i] = in_child(lambda: repr(result(i)))


# the first of every kind of expensive operation
FIRSTS = [i for i in range(len(OPS)) if OPS[i][3] >= CHEAP and not any(stem(OPS[i][1]) == stem(OPS[j][1]) for j in range(i))]


def cases(tier):
    n = len(OPS)
    for i in range(n): yield ('after', i, tier == 'thorough')
    for k in range(4): yield ('sequence', k)
    for i in FIRSTS: yield ('again', i, 270)
    for lo in range(0, n, 10): yield ('repeat', lo)
    for name in ops.VERIFIES: yield ('interpreter', name)
    for name in near.FUNCS: yield ('near', name)
    for name in near.MANY: yield ('many', name)
    if tier == 'thorough':
        for i in range(n): yield ('triples', i)


def check(i, history):
    """A message if the result of operation i, now, differs from its baseline."""
    got = repr(result(i))
    if got == BASE[i]: return None
    a = next((k for k in range(min(len(got), len(BASE[i]))) if got[k] != BASE[i][k]), 0)
    a = max(0, a - 60)
    return '%s gives ...%s after %s, expected ...%s' % (OPS[i][1], got[a:a + 300], history, BASE[i][a:a + 300])


def run(case, rep):
    kind = case[0]
    if kind == 'after':
        _, i, everything = case
        js = [j for j in range(len(OPS)) if everything or related(i, j)]
        def first():
            m = check(i, 'nothing')
            if m: return m
            for j in js:
                m = in_child(lambda: check(j, OPS[i][1]) or '')
                if m: return m
            return ''
        m = in_child(first)
        if m: rep.fail(m)
        rep.step(len(js) + 1)
        rep.traces += len(js) + 1
        for j in js: rep.state(i, j)
        rep.outcome('unaffected', len(js))
        if i % 100 == 0: rep.sample('%s, then each of %d operations' % (OPS[i][1], len(js)))
    elif kind == 'sequence':
        k = case[1]
        n = len(OPS)
        order = {0: list(range(n)), 1: list(range(n))[::-1], 2: list(range(0, n, 2)) + list(range(1, n, 2)), 3: [(7 * i) % n if n % 7 else i for i in range(n)]}[k]
        def go():
            for turn in range(2):
                for at, i in enumerate(order):
                    m = check(i, 'the %d operations before it in sequence %d (turn %d)' % (at, k, turn))
                    if m: return m
            return ''
        m = in_child(go)
        if m: rep.fail(m)
        rep.step(2 * n); rep.traces += 2 * n
        for i in range(2 * n): rep.state(case, i)
        rep.outcome('unaffected', 2 * n)
    elif kind in ('repeat', 'again'):
        lo = case[1]
        for i in (range(lo, min(lo + 10, len(OPS))) if kind == 'repeat' else [lo]):
            times = case[2] if kind == 'again' else 1100 if OPS[i][3] < .05 else 270 if OPS[i][3] < CHEAP else 4
            def go():
                for t in range(times):
                    m = check(i, 'itself, %d times' % t)
                    if m: return m
                    if t == times // 2: ops.fresh()
                return ''
            m = in_child(go)
            if m: rep.fail(m)
            rep.step(times); rep.traces += times
            rep.state('repeat', i)
            rep.outcome('unaffected', times)
    elif kind == 'interpreter':
        first = case[1]
        names = list(ops.VERIFIES)
        def go():
            base = {}
            for n in names: base[n] = repr(call(ops.VERIFIES[n], ops.Interpreter())[1])
            for second in names:
                for third in names:
                    it = ops.Interpreter()
                    for n in (first, second, third):
                        got = repr(call(ops.VERIFIES[n], it)[1])
                        if got != base[n] or repr(got) != repr(base[n]): return 'reusing an Interpreter for %s: %s gives %s, expected %s' % ((first, second, third), n, got, base[n])
            for n in names:
                i = next(i for i in range(len(OPS)) if OPS[i][1] == 'verify ' + n)
                m = check(i, 'all those histories')
                if m: return m
            return ''
        m = in_child(go)
        if m: rep.fail(m)
        rep.step(3 * len(names) ** 2)
        rep.traces += 3 * len(names) ** 2
        for a in names:
            for b in names: rep.state(first, a, b)
        rep.outcome('unaffected', len(names) ** 2)
    elif kind == 'triples':
        i = case[1]
        js = [j for j in range(len(OPS)) if related(i, j) and OPS[j][3] < 20]
        js = js[::max(1, len(js) // 24)]
        def first():
            check(i, '')
            for j in js:
                def second():
                    check(j, '')
                    for k in js:
                        m = in_child(lambda: check(k, '%s and %s' % (OPS[i][1], OPS[j][1])) or '')
                        if m: return m
                    return ''
                m = in_child(second)
                if m: return m
            return ''
        m = in_child(first)
        if m: rep.fail(m)
        rep.step(len(js) ** 2); rep.traces += len(js) ** 2
        for j in js:
            for k in js: rep.state(i, j, k)
        rep.outcome('unaffected', len(js) ** 2)
    elif kind == 'near':
        f, args, cost = near.FUNCS[case[1]]
        text = lambda a: repr(ops.show(call(f, a)[1]))
        base = [in_child(lambda: text(a)) for a in args]
        def wrong(j, history):
            got = text(args[j])
            return '' if got == base[j] else '%s(%s) gives %s after %s, expected %s' % (case[1], short(args[j]), short(got), history, short(base[j]))
        def first(i):
            m = wrong(i, 'nothing')
            if m: return m
            for j in range(len(args)):
                m = in_child(lambda: wrong(j, short(args[i])))
                if m: return m
            return ''
        def around():
            for order in (range(len(args)), reversed(range(len(args))), range(len(args))):
                for j in order:
                    m = wrong(j, 'the others')
                    if m: return m
            return ''
        for i in range(len(args)):
            m = in_child(lambda: first(i))
            if m: rep.fail(m)
        m = in_child(around)
        if m: rep.fail(m)
        n = len(args) ** 2 + 3 * len(args)
        rep.step(n); rep.traces += n
        for i in range(len(args)):
            for j in range(len(args)): rep.state(case, i, j)
        rep.outcome('unaffected by close arguments', n)
    elif kind == 'many':
        f, arg, count = near.MANY[case[1]]
        text = lambda i: repr(ops.show(call(f, arg(i))[1]))
        probes = [0, 1, 2, count // 2, count - 1]
        base = {i: in_child(lambda: text(i)) for i in probes}
        def go():
            seen = [text(i) for i in range(count)]
            for i in list(range(count - 1, -1, -1)) + probes:
                t = text(i)
                if t != seen[i] or t != base.get(i, t): return '%s(%s) gives %s after %d others, and %s before' % (case[1], short(arg(i)), short(t), count, short(base.get(i, seen[i])))
            return ''
        m = in_child(go)
        if m: rep.fail(m)
        rep.step(2 * count + 5); rep.traces += 2 * count + 5
        for i in range(count): rep.state(case, i)
        rep.outcome('unaffected by many others', 2 * count)

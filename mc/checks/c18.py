"""C18: the operations of the interpreter."""
from ..execute import *

ID = 'C18'
RULE = ('State: the stack after a program, or failure. Programs run on an independent interpreter; the real one gets the same program followed '
        'by a script that is true exactly on the stack the reference ends with (or by OP_1 if the reference fails, so that the verdict shows '
        'the failure), hence every difference in the resulting stack or in failing is seen through the public verdict alone.')
BOUNDS = {
    'quick': 'every operation x every stack of depth <= 3 over 13 values; every operation on stacks of 4..8 distinct elements; all unary and '
             'binary arithmetic over 46 numbers and 20 odd strings; OP_WITHIN over 14^3; all programs of <= 2 of all operations and of 3 of '
             '38 operations on 2 stacks, at every split between the two scripts; all control-flow programs of length <= 6 over 9 tokens; '
             'every operation in executed and skipped branches, and under 1..66 nested conditionals; towers of 1..66 conditionals of every kind (12 outermost x 18 inner kinds), closed to 3 depths; depth, picking and rolling in stacks of up to 998 different elements; hashes of lengths 0..140, 255, 256, 520; elements of 35 lengths that differ in one place',
    'thorough': 'programs of 3 of all operations; of 4 of 20 stack operations; control-flow programs of length <= 7 over 9 tokens; stacks of '
                'depth <= 4 over 8 values; arithmetic over 120 numbers',
}
VALUES = [b'', b'\x01', b'\x02', b'\x03', b'\x81', b'\x80', b'\x00', b'\xff', b'\xff\x00', b'\x01\x00', b'\xff\xff\xff\x7f', b'\x00\x00\x00\x80\x00', b'abcdef']
VALUES8 = [b'', b'\x01', b'\x02', b'\x03', b'\x81', b'\x00', b'\x00\x00\x00\x80\x00', b'ab']
NONPUSH = [0x4f, 0x50] + list(range(0x51, 0x100))
EXEC = [o for o in NONPUSH if o not in SIGOPS]
OPS38 = [0x00, 0x51, 0x52, 0x4f, 0x61, 0x63, 0x64, 0x67, 0x68, 0x69, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x82, 0x87, 0x88, 0x8b, 0x8f, 0x91, 0x93, 0x94, 0xa3, 0xa9]
STACK20 = [0x00, 0x51, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7d]
STACKS = [[b'\x02', b'\x01', b'\x00', b'\x01'], [], [b'x', b'y', b'z', b'\x81', b'\x02', b'\x01', b'\x00']]
FLOW = [0x00, 0x51, 0x63, 0x64, 0x67, 0x68, 0x69, 0x6a, 0x76]


def numbers(t):
    base = {0, 1, 2, 3, 5, 16, 17, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 8388607, 8388608, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32}
    if t:
        for k in range(0, 34): base |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    return sorted({s * v for v in base for s in (1, -1)})


ODD = [b'\x00', b'\x80', b'\x00\x00', b'\x00\x80', b'\x01\x00', b'\x01\x80', b'\x01\x00\x00\x00', b'\xff\xff\xff\xff', b'\x00\x00\x00\x80', b'\xff\xff\xff\x80', b'\x80\x00', b'\x7f\x00', b'\x7f\x80',
       b'\x00\x01', b'\x00\x00\x01', b'\x00\x00\x00\x00\x00', b'\x01\x00\x00\x00\x00', b'\x00\x00\x00\x00\x80', b'\xff\xff\xff\xff\x00', b'\xff\xff\xff\x7f\x00']
LONG = (15, 16, 17, 18, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 383, 384, 511, 512, 513, 600, 767, 768, 998)
NESTS = (1, 2, 3, 4, 5, 8, 17, 40, 66)
TOWERS = (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 66)
UNARY = [0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92, 0x69, 0x73, 0x82, 0x63, 0x64]
BINARY = [0x93, 0x94, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0x87, 0x88]


def cases(tier):
    t = tier == 'thorough'
    for op in EXEC:
        yield ('single', op)
        yield ('deep', op)
        if t: yield ('single4', op)
    for op in UNARY: yield ('unary', op, t)
    for op in BINARY:
        for part in range(4): yield ('binary', op, part, t)
    for part in range(8): yield ('within', part)
    for a in [0] + EXEC: yield ('pairs', a)
    for a in (OPS38 if not t else [0] + EXEC):
        for i in (0, 1, 2): yield ('triples', a, i, t)
    if t:
        for a in STACK20:
            for b in STACK20: yield ('quads', a, b)
    for a in FLOW:
        for b in FLOW: yield ('flow', a, b, 7 if t else 6)
    for lo in range(0x4f, 0x100, 8): yield ('branch', lo, min(lo + 8, 0x100))
    for lo in range(0, 141, 10): yield ('hash', tuple(range(lo, lo + 10)))
    yield ('hash', (255, 256, 520))
    yield ('cast',)
    for lo in range(0, 256, 32): yield ('pushes', lo)
    for n in LONG: yield ('long', n, t)
    for n in NESTS: yield ('nested', n)
    for op in EXEC: yield ('alt', op)
    for n in range(1, 521) if t else list(range(1, 83, 4)) + [127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 519, 520]: yield ('equal', n)
    for n in (TOWERS if not t else range(1, 68)): yield ('tower', n)


def run(case, rep):
    kind = case[0]
    if kind in ('single', 'single4'):
        op = bytes([case[1]])
        values, depth = (VALUES, (0, 1, 2, 3)) if kind == 'single' else (VALUES8, (4,))
        for n in depth:
            for st in itertools.product(values, repeat=n): effect(rep, b''.join(map(push, st)), op)
        rep.sample('%s on all stacks of depth <= %d' % (disasm(op), depth[-1]))
    elif kind == 'deep':
        op = bytes([case[1]])
        for n in range(4, 9):
            st = [bytes([0x41 + i]) for i in range(n)]
            effect(rep, b''.join(map(push, st)), op)
            for top in range(-1, n + 2): effect(rep, b''.join(map(push, st)) + push(B.num_enc(top)), op)
            for two in ((b'\x01', b'\x02'), (b'', b'\x01'), (b'\x05', b'\x05')): effect(rep, b''.join(map(push, st[:-2] + list(two))), op)
            effect(rep, b''.join(map(push, st)), b'\x6b\x6b' + op + b'\x6c\x6c')
            for k in range(0, n + 1): effect(rep, b''.join(map(push, st[:k])), b''.join(map(push, st[k:])) + op)
    elif kind == 'alt':         # every operation with any number of elements on both stacks
        op = bytes([case[1]])
        for a in range(9):
            for m in range(7):
                st = [bytes([0x41 + i]) for i in range(m)] + [bytes([0x61 + i]) for i in range(a)]
                both = b''.join(map(push, st))
                effect(rep, both, b'\x6b' * a + op)
                effect(rep, both, b'\x6b' * a + op + b'\x6c' * a)
                effect(rep, b'', both + b'\x6b' * a + op + b'\x6c' * ((a + 1) // 2))
                if m < 3: effect(rep, b'', both + b'\x6b' * a + b'\x51' + op + b'\x6c' * a)
    elif kind == 'unary':
        op = bytes([case[1]])
        for v in [B.num_enc(n) for n in numbers(case[2])] + ODD:
            for prog in ([op] if case[1] not in (0x63, 0x64) else [op + b'\x51\x67\x52\x68', op + b'\x51\x68', op + b'\x67\x52\x68']):
                effect(rep, push(v), prog)
                effect(rep, b'\x55', push(v) + prog + prog[:0])
            if op == b'\x69': compare(rep, push(v), b'')        # the verdict itself is a cast
    elif kind == 'binary':
        _, op, part, t = case
        vals = [B.num_enc(n) for n in numbers(t)] + ODD
        for i, a in enumerate(vals):
            if i % 4 != part: continue
            for b in vals: effect(rep, push(a) + push(b), bytes([op]))
    elif kind == 'within':
        vals = [B.num_enc(n) for n in (-2, -1, 0, 1, 2, 3, 127, 128, 2 ** 31 - 1, -2 ** 31 + 1)] + [b'\x80', b'\x00\x00', b'\x01\x00', b'\x00\x00\x00\x80\x00']
        for i, (x, lo, hi) in enumerate(itertools.product(vals, repeat=3)):
            if i % 8 == case[1]: effect(rep, push(x) + push(lo) + push(hi), b'\xa5')
    elif kind == 'pairs':
        for b in [0] + EXEC:
            prog = bytes([case[1], b])
            for st in STACKS:
                base = b''.join(map(push, st))
                effect(rep, base, prog)
                effect(rep, base + prog[:1], prog[1:])
                effect(rep, base + prog, b'')
    elif kind == 'triples':
        _, a, i, t = case
        ops = OPS38 if not t else [0] + EXEC
        base = b''.join(map(push, STACKS[i]))
        for b in ops:
            for c in ops:
                prog = bytes([a, b, c])
                effect(rep, base, prog)
                if i == 0 and not t:
                    effect(rep, base + prog[:1], prog[1:])
                    effect(rep, base + prog[:2], prog[2:])
    elif kind == 'quads':
        base = b''.join(map(push, STACKS[0]))
        for c in STACK20:
            for d in STACK20: effect(rep, base, bytes([case[1], case[2], c, d]))
    elif kind == 'flow':
        _, a, b, n = case
        if a == FLOW[0] and b == FLOW[0]:
            effect(rep, b'', b'')
            for x in FLOW: effect(rep, b'', bytes([x]))
        for k in range(0, n - 1):
            for rest in itertools.product(FLOW, repeat=k):
                prog = bytes((a, b) + rest)
                compare(rep, b'', prog)
                if k < 4: effect(rep, b'', prog); effect(rep, b'\x52', prog)
                if k < 3:
                    for cut in range(1, len(prog)): compare(rep, prog[:cut], prog[cut:])
        rep.sample('control flow starting with %s' % disasm(bytes([a, b])))
    elif kind == 'branch':
        for op in range(case[1], case[2]):
            o = bytes([op])
            for prog in (b'\x00\x63' + o + b'\x68', b'\x51\x64' + o + b'\x68', b'\x51\x63\x52\x67' + o + b'\x68', b'\x00\x63\x51\x63' + o + b'\x68\x67\x53\x68',
                         b'\x00\x63\x00\x63' + o + b'\x67' + o + b'\x68\x68', b'\x00\x63\x67\x68' + (o if op not in SIGOPS else b''), b'\x51\x63\x00\x63' + o + b'\x68\x68'):
                effect(rep, b'\x52\x53', prog)
                effect(rep, b'', prog)
                effect(rep, b'\x51', b'\x51\x51' + prog)
            if op in SIGOPS: continue
            for prog in (b'\x51\x63' + o + b'\x68', b'\x00\x64' + o + b'\x68', b'\x00\x63\x52\x67' + o + b'\x68', b'\x51\x63\x51\x63' + o + b'\x68\x68', o + b'\x61', o + b'\x6a', b'\x6a' + o):
                effect(rep, b'\x52\x53', prog)
                effect(rep, b'', prog)
                compare(rep, o, b'\x51'); compare(rep, b'\x51', o); compare(rep, b'\x51' + o, b'')
            # skipped pushes are not executed
            effect(rep, b'', b'\x00\x63' + push(b'abc') + o + b'\x02\xae\xac' + b'\x68\x55')
    elif kind == 'hash':
        for n in case[1]:
            for d in (patterned(n, 1), b'\0' * n):
                for op in range(0xa6, 0xab): effect(rep, push(d), bytes([op]))
                for a in range(0xa6, 0xab):
                    for b in range(0xa6, 0xab): effect(rep, push(d), bytes([a, b]))
                effect(rep, push(d), b'\x82')
    elif kind == 'cast':
        for a in range(256):
            compare(rep, push(bytes([a])), b'')
            for tail in (b'\x00', b'\x80', b'\x01', b'\xff', b'\x00\x00', b'\x00\x80', b'\x80\x00', b'\x80\x80', b'\x00\x01', b'\x00' * 9 + b'\x80', b'\x00' * 9 + b'\x01'):
                v = bytes([a]) + tail
                compare(rep, push(v), b'')
                effect(rep, push(v), b'\x73'); effect(rep, push(v), b'\x69'); effect(rep, push(v), b'\x63\x52\x67\x53\x68'); effect(rep, push(v), b'\x64\x52\x67\x53\x68')
        for n in range(0, 80):
            for v in (b'\0' * n, b'\0' * n + b'\x80', b'\0' * n + b'\x01', b'\x01' + b'\0' * n, b'\x80' + b'\0' * n, b'\x80' * n): compare(rep, push(v), b''); effect(rep, push(v), b'\x69')
    elif kind == 'pushes':
        for n in range(case[1], case[1] + 32):
            d = patterned(n, 9)
            for head in ([bytes([n])] if 1 <= n <= 75 else []) + [b'\x4c' + bytes([n]), b'\x4d' + n.to_bytes(2, 'little'), b'\x4e' + n.to_bytes(4, 'little')]:
                effect(rep, head + d, b''); effect(rep, b'', head + d); effect(rep, head + d, head + d + b'\x88'); compare(rep, head + d, b'')
                compare(rep, head + d, b'\x82' + push(B.num_enc(n)) + b'\x9c')
                effect(rep, b'', b'\x00\x63' + head + d + b'\x68')
    elif kind == 'long':
        # many elements, all different: the depth, and what is read from or moved to anywhere in the stack
        n = case[1]
        base = b''.join(push(b'e%d' % i) for i in range(n))
        for want in (n, n - 1, n & 0xff, n & 0x7f): compare(rep, base, b'\x74' + push(B.num_enc(want)) + b'\x87'); compare(rep, base, b'\x74' + push(B.num_enc(want)) + b'\x9c')
        compare(rep, base, b'\x74\x6b\x6c\x74\x94\x4f\x9c')
        idx = sorted({i for i in (0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 63, 64, 126, 127, 128, 129, 130, 199, 254, 255, 256, 257, 258, 383, 384, 511, 512, 513, n - 3, n - 2, n - 1, n, n + 1) if 0 <= i <= n + 1} if not case[2] else range(n + 2))
        for i in idx:
            at = push(B.num_enc(i))
            for op in (b'\x79', b'\x7a'):
                for e in {n - 1 - i, n - i, n - 2 - i, n - 1 - (i & 0xff), n - 1 - (i & 0x7f), 0, n - 1}: compare(rep, base, at + op + push(b'e%d' % e) + b'\x87')
                compare(rep, base + at, op + b'\x74' + push(B.num_enc(n + (op == b'\x79'))) + b'\x9c')
            # after moving, the others have kept their order
            for j in {0, 1, max(i - 1, 0), i, i + 1, i + 2, n - 1, n - 2}:
                for e in {n - 1 - j, n - j, n - 1 - j - 1}: compare(rep, base, at + b'\x7a' + push(B.num_enc(j)) + b'\x79' + push(b'e%d' % e) + b'\x87')
        rep.sample('%d elements' % n)
    elif kind == 'nested':
        # every operation in code that is skipped or executed under n conditionals
        n = case[1]
        for op in [0] + list(range(0x4f, 0x100)):
            o = bytes([op])
            for prog in (b'\x00\x63' * n + o + b'\x68' * n, b'\x00\x63' + b'\x63' * (n - 1) + o + b'\x68' * n, b'\x51\x64' + b'\x64' * (n - 1) + o + b'\x68' * n,
                         b'\x51\x63' * (n - 1) + b'\x00\x63' + o + b'\x68' * n, b'\x51\x63' * (n - 1) + b'\x51\x63\x67' + o + b'\x68' * n,
                         b'\x00\x63' + b'\x63' * (n - 1) + b'\x67' + o + b'\x68' * n, b'\x00\x63' + b'\x63' * (n - 1) + b'\x68' * (n - 1) + o + b'\x68'):
                compare(rep, b'', prog + b'\x51'); compare(rep, b'\x51', prog)
            if op in SIGOPS: continue
            for prog in (b'\x51\x63' * n + o + b'\x68' * n, b'\x00\x64' * n + o + b'\x68' * n, b'\x00\x63\x67' * n + o + b'\x68' * n, b'\x00\x63' + b'\x63' * (n - 1) + b'\x68' * (n - 1) + b'\x67' + o + b'\x68'):
                compare(rep, b'\x52\x53\x51', prog + b'\x51'); compare(rep, b'\x51', prog); compare(rep, b'', prog)
        for k in range(0, 2 * n + 4): compare(rep, b'', b'\x51\x63' * n + b'\x67' * k + b'\x68' * n + b'\x51'); compare(rep, b'', b'\x52\x51\x63' + b'\x67\x8b' * k + b'\x68' + push(B.num_enc(2 + k // 2)) + b'\x9c')
        for k in (n - 1, n + 1): compare(rep, b'', b'\x51\x63' * n + b'\x68' * k + b'\x51'); compare(rep, b'', b'\x00\x63' + b'\x63' * (n - 1) + b'\x68' * k + b'\x51')
        rep.sample('%d nested conditionals' % n)
    elif kind == 'equal':
        # elements of a length that differ at one place only
        n = case[1]
        if n == 0: return
        base = patterned(n, n)
        for i in (range(n) if n < 130 else [j for j in range(n) if j % 8 in (0, 7) or j > n - 9]):
            for bit in (1, 0x80):
                other = base[:i] + bytes([base[i] ^ bit]) + base[i + 1:]
                compare(rep, push(base) + push(other), b'\x87'); compare(rep, push(other), push(base) + b'\x88\x51')
        for other in (base[:-1], base + b'\0', base[1:], b'\0' + base, base[::-1], b'', base):
            if len(other) <= 520: compare(rep, push(base) + push(other), b'\x87'); compare(rep, push(other), push(base) + b'\x87'); compare(rep, push(base) + push(other), b'\x88\x51')
        if n > 1:
            swapped = base[:-2] + base[-1:] + base[-2:-1]
            compare(rep, push(base) + push(swapped), b'\x87')
        rep.sample('elements of %d bytes that differ at one place' % n)
    elif kind == 'tower':
        # n conditionals inside each other, each of any kind (with or without a pushed condition, IF or NOTIF, 0 to 2 ELSE), closed to any depth before the operation
        n = case[1]
        units = [(c + o + b'\x67' * e) for c in (b'', b'\x00', b'\x51') for o in (b'\x63', b'\x64') for e in (0, 1, 2)]
        for head in units[6:]:
            for unit in units:
                for tail in ((unit, head) if n > 1 else (unit,)):
                    body = head + unit * (n - 2) + (tail if n > 1 else b'')
                    if sum(1 for b in body if b > 0x60) + n > 200: continue
                    for k in {0, n // 2, n - 1}:
                        for op in (b'\x6a', b'\x51', b'\x75', b'\x67\x6a', b'\x67\x75'): compare(rep, b'\x51', body + b'\x68' * k + op + b'\x68' * (n - k))
                    compare(rep, b'\x52', body + b'\x53' + b'\x68' * n + b'\x53\x87'); compare(rep, b'\x51', body + b'\x68' * (n - 1)); compare(rep, b'\x51', body + b'\x68' * n + b'\x67')
        rep.sample('towers of %d conditionals' % n)

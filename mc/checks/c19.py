"""C19: limits, flags, P2SH and lock times of the interpreter."""
from ..execute import *
from ..spend import p2sh

ID = 'C19'
RULE = ('State: (scripts, flags, transaction context, verdict). Every scenario is run on the real interpreter and on an independent one; limits are probed '
        'on both sides of their bound with every kind of operation that can cross it, in executed and skipped code; every subset of the 9 flags is '
        'applied to every scenario of a catalogue in which each flag matters alone or together with others; lock times are enumerated around 0, the '
        'height/time threshold and the ends of their range, against the arguments, sequence numbers and positions of inputs.')
BOUNDS = {
    'quick': 'all 512 flag sets x all catalogue scenarios; 201 operations, 520 bytes, 1000 elements and 10000 bytes at bound - 1, bound, bound + 1 for every '
             'operation; elements of 519..522 bytes above 0..8 others and 998..1002 elements, under 0..3 conditionals and with 0..10 on the alt stack; all sequences of <= 5 of 7 operations of conditionals in each script; the same limits after each of 29 pieces of other code, in each script; input scripts of 200..1000 pushes with an operation at each of up to 12 places; key counts -1..22 x signature counts 0 and out of range; 12 lock times x 19 arguments x 4 sequence numbers x 3 input positions x 8 flag sets',
    'thorough': 'additionally all bounds +- 3, all split points of the 1000 elements between stack, alt stack and the two scripts in steps of 50, lock times around every power of two',
}
ALLFLAGS = (vm.P2SH, vm.STRICTENC, vm.DERSIG, vm.LOW_S, vm.NULLDUMMY, vm.SIGPUSHONLY, vm.MINIMALDATA, vm.DISCOURAGE, vm.CLTV)
NAMED = {vm.P2SH: 'P2SH', vm.STRICTENC: 'STRICTENC', vm.DERSIG: 'DERSIG', vm.LOW_S: 'LOW_S', vm.NULLDUMMY: 'NULLDUMMY', vm.SIGPUSHONLY: 'SIGPUSHONLY',
         vm.MINIMALDATA: 'MINIMALDATA', vm.DISCOURAGE: 'DISCOURAGE_UPGRADABLE_NOPS', vm.CLTV: 'CHECKLOCKTIMEVERIFY'}
KEY = b'\x21' + pub(1)
BIGNUM = 0x7fffffff


def impl_flags(flags):
    return sum(getattr(Interpreter, 'SCRIPT_VERIFY_' + NAMED[f]) for f in ALLFLAGS if flags & f)


def transaction(lock=0, seqs=(0,)):
    ins = [Input(T_id(i), i, Script(), s) for i, s in enumerate(seqs)]
    return Transaction(ins, [Output(1, Script())], lock)


def T_id(i): return '%064x' % (i + 1)


def same(rep, sig, pub_script, flags=0, lock=0, seqs=(0,), nin=0):
    want = vm.verify(sig, pub_script, flags, {'lock': lock, 'seq': seqs[nin]})
    got = impl(sig, pub_script, impl_flags(flags), transaction(lock, seqs), nin)
    rep.step()
    rep.traces += 1
    rep.state(sig, pub_script, flags, lock, seqs, nin)
    if got is not want:
        rep.fail('verify(%s, %s) with flags %s, lock time %d, sequence numbers %s, input %d gives %s, expected %s' % (
            short(disasm(sig)), short(disasm(pub_script)), [NAMED[f] for f in ALLFLAGS if flags & f], lock, seqs, nin,
            'an exception: %r' % got if isinstance(got, Exception) else repr(got), want))
    rep.outcome('accepted' if want else 'rejected')


def msig(m, n, dummy=b'\0', verify=False):
    """A CHECKMULTISIG of no signatures, with n keys."""
    return dummy + num(m) + KEY * max(n, 0) + num(n) + (b'\xaf' if verify else b'\xae')


def num(n): return b'\0' if n == 0 else bytes([0x50 + n]) if -1 <= n <= 16 else T.push(B.num_enc(n))


def catalogue():
    out = []
    nops = [bytes([0x61])] + [bytes([o]) for o in range(0xb0, 0xba)]
    for o in nops:
        out.append((b'\x51', o)); out.append((b'\x51' + o, b'')); out.append((b'', b'\x51\x00\x63' + o + b'\x68'))
    # pushes that are not minimal, executed and not
    for v in (b'', b'\x00', b'\x01', b'\x05', b'\x10', b'\x11', b'\x80', b'\x81', b'ab', b'q' * 75, b'q' * 76, b'q' * 255, b'q' * 256, b'q' * 520):
        for head in ([bytes([len(v)])] if len(v) < 76 else []) + ([b'\x4c' + bytes([len(v)])] if len(v) < 256 else []) + [b'\x4d' + len(v).to_bytes(2, 'little'), b'\x4e' + len(v).to_bytes(4, 'little')]:
            out.append((head + v, b'\x75\x51')); out.append((b'', head + v + b'\x75\x51')); out.append((b'', b'\x00\x63' + head + v + b'\x67\x51\x68'))
            red = head + v + b'\x75\x51'
            if len(red) <= 520: out.append((T.push(red), p2sh(red)))
    # numbers that are not minimal, for every operation that reads numbers
    for v in (b'\x00', b'\x80', b'\x01\x00', b'\x01\x80', b'\x00\x80', b'\x02\x00\x00', b'\x7f\x00', b'\xff\x00', b'\xff\x80'):
        p = T.push(v)
        for o in (0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92): out.append((p, bytes([o]) + b'\x75\x51'))
        for o in (0x93, 0x94, 0x9a, 0x9b, 0x9c, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4):
            out.append((p + b'\x52', bytes([o]) + b'\x75\x51')); out.append((b'\x52' + p, bytes([o]) + b'\x75\x51'))
        for a, b, c in ((p, b'\x51', b'\x53'), (b'\x51', p, b'\x53'), (b'\x51', b'\x00', p)): out.append((a + b + c, b'\xa5\x75\x51'))
        out.append((b'\x51\x52\x53\x54' + p, b'\x79\x75\x51')); out.append((b'\x51\x52\x53\x54' + p, b'\x7a\x75\x51'))
        out.append((b'', b'\x00' + p + b'\x00\xae')); out.append((b'', b'\x00\x00' + KEY * 2 + p + b'\xae')); out.append((p, b'\xb1\x75\x51'))
        out.append((p, b'\x69\x51')); out.append((p, b'\x63\x51\x67\x51\x68')); out.append((p, b'\x82\x75\x51')); out.append((p, p + b'\x87'))
    # the dummy of CHECKMULTISIG
    for dummy in (b'\x00', b'\x51', b'\x01\x00', b'\x01\x80', b'\x4c\x00', b'\x02\x00\x00', b'\x02ab'):
        for n in (0, 1, 3):
            out.append((b'', msig(0, n, dummy))); out.append((dummy, msig(0, n, b''))); out.append((b'', b'\x51' + msig(0, n, dummy, True)))
            red = msig(0, n, b'')
            out.append((dummy + T.push(red), p2sh(red)))
    # pushes only
    for o in (0x50, 0x51, 0x60, 0x61, 0x4f, 0x63, 0x67, 0x68, 0x69, 0x6b, 0x74, 0x75, 0x76, 0x77, 0x82, 0x87, 0xb0, 0xba, 0xff, 0x7e):
        out.append((b'\x51\x51' + bytes([o]), b'\x51')); out.append((b'\x51\x52' + bytes([o]) + b'\x51', b''))
        out.append((b'\x00\x63' + bytes([o]) + b'\x68\x51', b''))
    out += [(b'', b'\x51'), (b'', b''), (b'\x00', b''), (b'\x51', b'\x75'), (b'\x00', b'\x51'), (b'\x51\x63', b'\x68\x51'), (b'\x51\x6b', b'\x6c'), (b'\x51\x51\x6b', b'\x51')]
    # pay to script hash
    for red in (b'\x51', b'\x00', b'', b'\x6a', b'\x61\x51', b'\x87', b'\x75', b'\x76\x87', b'\x63\x51\x67\x00\x68', b'\x63', b'\x05ab', b'\x4c', b'\x4d\x01', b'\x50', b'\xba', b'\x7e', b'\xb1', b'\xb0\x51',
                b'\x74', b'\x6c', b'\x61' * 201 + b'\x51', b'\x61' * 202 + b'\x51', b'\x51' * 519, b'\x51' * 520, b'\x51' * 521, p2sh(b'\x51'), p2sh(b'\x00'), b'\x50\x51', b'\x00\x63\x50\x68\x51', b'\x52\x87', b'\xab\x51', b'\x69\x51'):
        lock = p2sh(red)
        h = B.hash160(red)
        for args in (b'', b'\x51', b'\x00', b'\x51\x52', b'\x52\x51', b'\x51\x51', b'\x00\x00', b'\x51\x01\x51'):
            out.append((args + (T.push(red) if red else b'\0'), lock))
        out.append((T.push(red) if red else b'\0', b'\xa9\x4c\x14' + h + b'\x87'))          # not the template: no redeeming
        out.append((T.push(red) if red else b'\0', b'\xa9\x14' + h + b'\x87\x61'))
        out.append((T.push(red) if red else b'\0', b'\xa9\x14' + h + b'\x88\x51'))
        out.append((T.push(red) if red else b'\0', b'\x61' + lock)); out.append((T.push(red) if red else b'\0', b'\xa6\x14' + h + b'\x87'))
        out.append((b'\x61' + (T.push(red) if red else b'\0'), lock)); out.append(((T.push(red) if red else b'\0') + b'\x76\x75', lock)); out.append(((T.push(red) if red else b'\0') + b'\x61', lock))
        out.append((b'\x51', lock)); out.append((b'', lock)); out.append((b'\x00', lock))
        out.append((T.push(red + b'\x61') if len(red) < 520 else b'\x51', lock))
        if 0 < len(red) < 256: out.append((b'\x4c' + bytes([len(red)]) + red, lock))
    inner = b'\x51'
    out.append((T.push(inner) + T.push(p2sh(inner)), p2sh(p2sh(inner)))); out.append((T.push(b'\x00') + T.push(p2sh(b'\x00')), p2sh(p2sh(b'\x00'))))
    # lock times, with and without other flags
    for arg in (b'\x00', b'\x51', b'\x4f', b'\x01\x05', b'\x02\x05\x00', b'\x05\x05\x00\x00\x00\x00', b'\x06\x05\x00\x00\x00\x00\x00', T.push(B.num_enc(10)), T.push(B.num_enc(11)), T.push(B.num_enc(500000000))):
        out.append((arg, b'\xb1\x75\x51')); out.append((b'', arg + b'\xb1\x75\x51')); out.append((b'', b'\x51\x00\x63' + arg + b'\xb1\x68'))
        red = arg + b'\xb1\x75\x51'
        out.append((T.push(red), p2sh(red)))
    out.append((b'', b'\xb1')); out.append((b'', b'\xb1\x51'))
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x))]


CAT = catalogue()
SUBSETS = [sum(c) for n in range(len(ALLFLAGS) + 1) for c in itertools.combinations(ALLFLAGS, n)]
GROW = [0x76, 0x6e, 0x6f, 0x70, 0x73, 0x74, 0x78, 0x7d, 0x82, 0x51, 0x00, 0x4f, 0x60, 0x79, 0x6c, 0x7a, 0x7b, 0x7c, 0x75, 0x6b, 0x61, 0x87, 0x93, 0xae]
LOCKS = [0, 1, 9, 10, 11, 499999999, 500000000, 500000001, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1]
ARGS = [b'', b'\x80', b'\x81', B.num_enc(-10)] + [B.num_enc(n) for n in (1, 9, 10, 11, 499999999, 500000000, 500000001, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 39 - 1, 2 ** 39)] + [b'\x0a\x00', b'\x0a\x00\x00\x00\x00', b'\x0a\x00\x00\x00\x00\x00', B.num_enc(-2 ** 32)]

# code before a limit is met: (pushes, code, operations it uses, elements it leaves on the stacks, code that closes it, operations of that)
CONTEXTS = [(b'', b'', 0, 0, b'', 0),
            (b'\x51', b'\x6b', 1, 1, b'', 0), (b'\x51' * 3, b'\x6b' * 3, 3, 3, b'', 0), (b'\x51', b'\x6b', 1, 1, b'\x6c', 1), (b'\x51' * 100, b'\x6b' * 100, 100, 100, b'', 0), (b'\x51', b'\x6b\x6c', 2, 1, b'', 0),
            (b'', b'\x51\x63', 1, 0, b'\x68', 1), (b'', b'\x00\x63\x67', 2, 0, b'\x68', 1), (b'', b'\x00\x64', 1, 0, b'\x67\x68', 2), (b'\x51', b'\x51\x63\x6b', 2, 1, b'\x68', 1), (b'', b'\x51\x63' * 40, 40, 0, b'\x68' * 40, 40),
            (b'', b'\x51\x63\x68', 2, 0, b'', 0), (b'', b'\x00\x63\x6a\x67\x68', 3, 0, b'', 0),
            (b'\x51' * 500, b'', 0, 500, b'', 0), (b'\x51' * 990, b'', 0, 990, b'', 0), (b'\x51' * 900, b'\x6d' * 190, 190, 520, b'', 0),
            (b'', b'\xab', 1, 0, b'', 0), (b'\x00', b'\xab\xa9', 2, 1, b'', 0), (b'\x51', b'\x69', 1, 0, b'', 0), (b'\x51\x51', b'\x88', 1, 0, b'', 0), (b'', b'\xb1', 1, 0, b'', 0), (b'', b'\x61\xb0\xb9', 3, 0, b'', 0), (b'', b'\x74', 1, 1, b'', 0),
            (b'\x51\x52', b'\x93', 1, 1, b'', 0), (b'', T.push(b'a' * 520), 0, 1, b'', 0), (b'', T.push(b'a' * 520) + b'\xa8', 1, 1, b'', 0), (b'', b'\x00\x00\x00\xae', 1, 1, b'', 0), (b'', b'\x00\x00' + KEY * 3 + b'\x53\xae', 4, 1, b'', 0), (b'', b'\x4f', 0, 1, b'', 0)]


def cases(tier):
    t = tier == 'thorough'
    for i in range(0, len(CAT), 8): yield ('flags', i, min(i + 8, len(CAT)))
    for lo in range(0x00, 0x100, 16): yield ('opcount', lo, 3 if t else 1)
    for n in range(-1, 23): yield ('keys', n)
    yield ('keyops', 3 if t else 1)
    yield ('element',)
    for a in range(7):
        for b in range(7): yield ('open', a, b, 6 if t else 5)
    for depth in range(4): yield ('within', depth)
    for n in (1, 2, 3, 4, 20, 60): yield ('nested', n)
    yield ('size', 3 if t else 1)
    for op in GROW: yield ('stack', op, t)
    yield ('carry', 50 if t else 250)
    for i in range(len(CONTEXTS)): yield ('context', i, 3 if t else 1)
    for n in (200, 255, 256, 257, 300, 511, 512, 513, 900, 999, 1000): yield ('pushonly', n)
    for lock in (LOCKS if not t else sorted(set(LOCKS) | {v for k in range(33) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1) if v < 2 ** 32})): yield ('lock', lock, t)


def run(case, rep):
    kind = case[0]
    if kind == 'flags':
        for sig, lock in CAT[case[1]:case[2]]:
            for flags in SUBSETS: same(rep, sig, lock, flags, 10, (0, 0xffffffff))
            for flags in (vm.CLTV, vm.CLTV | vm.DISCOURAGE, vm.CLTV | vm.MINIMALDATA): same(rep, sig, lock, flags, 10, (0, 0xffffffff), 1)
        rep.sample('all flag sets on %s | %s' % tuple(map(disasm, CAT[case[1]])))
    elif kind == 'opcount':
        for op in range(case[1], case[1] + 16):
            if 1 <= op <= 0x4e: o = {0x4c: b'\x4c\x01a', 0x4d: b'\x4d\x01\0a', 0x4e: b'\x4e\x01\0\0\0a'}.get(op) or bytes([op]) + b'a' * op
            else: o = bytes([op])
            for d in range(-case[2], case[2] + 1):
                k = 201 + d
                same(rep, b'', b'\x00\x63' + b'\x61' * (k - 3) + o + b'\x68\x51')            # skipped code counts
                same(rep, b'', b'\x00\x63' + o + b'\x61' * (k - 3) + b'\x68\x51')
                same(rep, b'', b'\x00\x63' + b'\x61' * (k - 2) + b'\x68' + b'\x51')
                if op in SIGOPS: continue
                same(rep, b'\x51' * 8, b'\x61' * (k - 1) + o + b'\x75' * (op < 0x61) + b'\x51')
                same(rep, b'\x51' * 8, b'\x61' * k + o)
                same(rep, b'\x51' * 8 + b'\x61' * 201, b'\x61' * (k - 1) + o + b'\x51')      # counted per script
                same(rep, b'\x51' * 8 + b'\x61' * (k - 1) + o, b'\x61' * 201 + b'\x51')
                same(rep, b'\x51' * 8, o * k + b'\x51')
                red = b'\x61' * (k - 1) + o + b'\x51'
                same(rep, b'\x51' * 8 + T.push(red), p2sh(red), vm.P2SH)
    elif kind == 'keys':
        n = case[1]
        for verify in (False, True):
            for dummy in (b'\0', b'\x51', b'', b'\x01\x00', b'\x01\x80', b'\x4c\x00', b'\x02\0\0', b'\x4f'):
                for flags in (0, vm.NULLDUMMY, vm.MINIMALDATA, vm.NULLDUMMY | vm.P2SH, vm.NULLDUMMY | vm.MINIMALDATA):
                    for have in sorted({n, n - 1, n + 1} | {0}):
                        for m in (0, -1, n + 1, 21):
                            if have < 0 or n > have and m == 0 and have >= 0 and False: continue
                            prog = dummy + num(m) + KEY * have + num(n) + (b'\xaf' if verify else b'\xae')
                            defined(rep, b'', prog + b'\x51' * verify, flags)
                            defined(rep, b'\x51' * 3, prog, flags)
                            defined(rep, b'\x51' * 3 + prog, b'\x51', flags)
    elif kind == 'keyops':
        for n in range(0, 21):
            for d in range(-case[1], case[1] + 1):
                for verify in (False, True):
                    k = 201 + d - 1 - n
                    same(rep, b'', b'\x61' * k + msig(0, n, verify=verify) + b'\x51')
                    same(rep, b'', msig(0, n, verify=verify) + b'\x61' * k + b'\x51')
                    k2 = 201 + d - 2 - 2 * n
                    same(rep, b'', msig(0, n, verify=verify) + b'\x61' * k2 + msig(0, n, verify=verify) + b'\x51')
                    same(rep, b'', b'\x00\x63' + msig(0, n, verify=verify) + b'\x68' + b'\x61' * (201 + d - 3) + b'\x51')    # skipped: counts as one
                    same(rep, b'\x61' * k + msig(0, n, verify=verify), b'\x51')
        for count in range(1, 30):
            for n in range(0, 21): same(rep, b'', (msig(0, n) + b'\x75') * count + b'\x51') if count * (n + 2) < 260 else None
    elif kind == 'element':
        for n in (0, 1, 75, 76, 255, 256, 518, 519, 520, 521, 522, 523, 600, 1000, 5000, 9990):
            for head in ([b'\x4c' + bytes([n])] if n < 256 else []) + [b'\x4d' + n.to_bytes(2, 'little'), b'\x4e' + n.to_bytes(4, 'little')]:
                p = head + b'\x01' * n
                for flags in (0, vm.MINIMALDATA, vm.P2SH):
                    same(rep, p, b'\x51', flags); same(rep, b'', p + b'\x51', flags); same(rep, b'', b'\x00\x63' + p + b'\x68\x51', flags); same(rep, b'', b'\x51\x64' + p + b'\x67\x51\x68', flags)
                    same(rep, p, b'\x82' + num(n) + b'\x9c', flags); same(rep, p, p + b'\x87', flags)
    elif kind == 'open':
        # conditionals that are left open, closed twice or interleaved, in each of the three scripts
        _, a, b, n = case
        syms = (b'\0', b'\x51', b'\x63', b'\x64', b'\x67', b'\x68', b'\x75')
        for k in range(n - 1):
            for rest in itertools.product(syms, repeat=k):
                code = syms[a] + syms[b] + b''.join(rest)
                same(rep, code, b'\x51'); same(rep, b'', code + b'\x51'); same(rep, b'\x51', code)
                if k < 3: same(rep, code, b''); same(rep, b'', code); same(rep, code, b'\x68\x51'); same(rep, b'\x51' + T.push(code), p2sh(code), vm.P2SH); same(rep, T.push(code), p2sh(code), vm.P2SH)
    elif kind == 'within':
        # the sizes of elements and of the stack, under conditionals, above other elements and next to the alt stack
        depth = case[1]
        for inside in (b'\x51\x63', b'\0\x64'):
            head, tail = inside * depth, b'\x68' * depth
            for alt in (0, 1, 2, 3, 10):
                for below in range(0, 9):
                    for n in (519, 520, 521, 522):
                        for p in (b'\x4d' + n.to_bytes(2, 'little'), b'\x4e' + n.to_bytes(4, 'little')):
                            same(rep, b'', b'\x51' * (below + alt) + b'\x6b' * alt + head + p + b'\1' * n + tail)
                            if below == 3: same(rep, b'\x51' * (below + alt), b'\x6b' * alt + head + p + b'\1' * n + tail)
                for total in range(998, 1003):
                    for grow in (b'\x51', b'\x76', b'\0', b'\x74', b'\x7d'):
                        same(rep, b'', b'\x51' * (total - 1) + b'\x6b' * alt + head + grow + b'\x75' + tail)
                        same(rep, b'', b'\x51' * (total - 1) + b'\x6b' * alt + head + grow + tail + b'\x75')
                        same(rep, b'\x51' * (total - 1), b'\x6b' * alt + head + grow + tail)
                        same(rep, b'', b'\x51' * alt + b'\x6b' * alt + head + b'\x51' * (total - 1 - alt) + grow + tail)
                        same(rep, b'', b'\x51' * alt + b'\x6b' * alt + head + b'\x51' * (total - 1 - alt) + grow + b'\x75' + tail)
    elif kind == 'nested':
        # what is enforced in code that is skipped, however deep, and what is not
        n = case[1]
        opens = (b'\x00\x63' * n, b'\x00\x63' + b'\x63' * (n - 1), b'\x51\x63' * (n - 1) + b'\x00\x63', b'\x51\x63' * (n - 1) + b'\x51\x63\x67', b'\x51\x64' + b'\x63' * (n - 1), b'\x51\x63' * n)
        for head in opens:
            run_it = head == opens[-1]
            for op in range(0x61, 0x100):
                if run_it and op in SIGOPS: continue
                for flags in (0, vm.MINIMALDATA | vm.DISCOURAGE | vm.CLTV | vm.NULLDUMMY):
                    same(rep, b'', head + bytes([op]) + b'\x68' * n + b'\x51', flags)
                    same(rep, b'\x51' * 3, head + bytes([op]) + b'\x68' * n, flags)
            for size in (75, 76, 255, 256, 519, 520, 521, 522, 600):
                for p in ([b'\x4c' + bytes([size])] if size < 256 else []) + [b'\x4d' + size.to_bytes(2, 'little'), b'\x4e' + size.to_bytes(4, 'little')]:
                    for flags in (0, vm.MINIMALDATA): same(rep, b'', head + p + b'x' * size + b'\x68' * n + b'\x51', flags)
            used = sum(1 for i, b in enumerate(head) if b >= 0x61) + n
            for d in (-1, 0, 1, 2):
                k = 201 + d - used
                same(rep, b'', head + b'\x61' * k + b'\x68' * n + b'\x51'); same(rep, b'', head + b'\x68' * n + b'\x61' * k + b'\x51')
                same(rep, b'', head + b'\xac' * (0 if run_it else k) + b'\x68' * n + b'\x51'); same(rep, b'', head + b'\xae' * (0 if run_it else k) + b'\x68' * n + b'\x51')
            for k in (999, 1000, 1001): same(rep, b'', head + b'\x51' * k + b'\x68' * n + b'\x51'); same(rep, b'\x51' * (k - 1), head + b'\x51' * 9 + b'\x68' * n + b'\x51')
        rep.sample('limits under %d conditionals' % n)
    elif kind == 'size':
        def filler(n):
            """A script of n bytes that pushes and drops nothing but pushes, few operations."""
            out = b''
            while n - len(out) > 530: out += b'\x4d\x08\x02' + b'a' * 520
            rest = n - len(out)
            if rest >= 260: out += b'\x4d' + (rest - 3).to_bytes(2, 'little') + b'b' * (rest - 3) if rest - 3 <= 520 else b'\x4d' + (260).to_bytes(2, 'little') + b'b' * 260 + b'\x51' * (rest - 263)
            else: out += b'\x51' * rest
            assert len(out) == n
            return out
        for d in range(-case[1], case[1] + 2):
            n = 10000 + d
            for f in (filler(n), b'\x51' * 900 + filler(n - 900), filler(n - 1) + b'\x61', b'\x00\x63' + filler(n - 4) + b'\x68\x51', b'\x00\x63' + b'\x51' * (n - 4) + b'\x68\x51', b'\x6a' + filler(n - 1)):
                for flags in (0, vm.SIGPUSHONLY, vm.P2SH | vm.MINIMALDATA):
                    same(rep, f, b'\x51', flags); same(rep, b'', f, flags); same(rep, b'\x51', f + b'\x51', flags)
                    same(rep, f, f, flags)
        for n in (9000, 9999, 10000, 10001, 10002, 20000, 65535, 65536, 70000): same(rep, b'', b'\x00\x63' + filler(n - 4) + b'\x68\x51'); same(rep, b'\x00\x63' + filler(n - 4) + b'\x68\x51', b'\x51')
    elif kind == 'stack':
        op, o = case[1], bytes([case[1]])
        r = range(994, 1004) if not case[2] else range(980, 1010)
        for n in r:
            base = b'\x51' * n
            prep = {0x79: b'', 0x6c: b'\x6b', 0xae: b'\x00\x00\x00' if n % 2 else b'\x00\x00\x51\x51'}.get(op, b'')
            for tail in (b'', b'\x75', b'\x6d\x75', b'\x61', b'\x51'):
                same(rep, base, prep + o + tail); same(rep, base + prep + o, tail); same(rep, b'', base + prep + o + tail)
                same(rep, base, b'\x6b' * 5 + prep + o + tail)
                same(rep, b'\x51' * (n // 2), b'\x51' * (n - n // 2) + b'\x6b' * 100 + prep + o + tail)
                same(rep, b'', b'\x00\x63' + base + o + b'\x68\x51' + tail)                # skipped pushes do not count
                same(rep, base, b'\x00\x63' + o * 3 + b'\x68' + tail)
        rep.sample('%s at 994..1003 elements' % disasm(o))
    elif kind == 'carry':
        for total in (999, 1000, 1001, 1002):
            for first in range(0, total + 1, case[1]):
                for alt in range(0, 201, max(50, case[1] // 2)):
                    if alt > first: continue
                    # what is on the alt stack of the first script is gone in the second
                    same(rep, b'\x51' * first + b'\x6b' * alt, b'\x51' * (total - first + alt)); same(rep, b'\x51' * first + b'\x6b' * alt, b'\x51' * (total - first))
                    same(rep, b'\x51' * first, b'\x51' * (total - first) + b'\x6b' * alt)
                    same(rep, b'\x51' * first + b'\x6b' * alt + b'\x6c', b'\x51' * (total - first))
        red = b'\x51' * 500
        for first in (480, 497, 498, 499, 500, 501, 502): same(rep, b'\x51' * first + T.push(red), p2sh(red), vm.P2SH); same(rep, b'\x51' * first + T.push(red), p2sh(red), 0)
        for n in (997, 998, 999, 1000): same(rep, b'\x51' * n + b'\x01\x51', p2sh(b'\x51'), vm.P2SH)
    elif kind == 'context':
        # every limit, met after other code has run in the same or in an earlier script
        pushes, code, ops, left, close, cops = CONTEXTS[case[1]]
        for d in range(-case[2], case[2] + 1):
            fills = [b'\x61' * (201 + d - ops - cops), b'\xb0' * (201 + d - ops - cops)]
            if 201 + d - ops - cops >= 2: fills += [b'\x51\x75' + b'\x61' * (200 + d - ops - cops), b'\x00\x63' + b'\xac' * (199 + d - ops - cops) + b'\x68']
            if 201 + d - ops - cops >= 22: fills.append(b'\x61' * (201 + d - ops - cops - 21) + msig(0, 20) + b'')
            room = 1000 + d - left
            fills += [b'\x51' * room, b'\x51' * (room - 1) + b'\x76', b'\x51' * (room - 2) + b'\x6e\x75' if room > 4 else b'', b'\x51' * (room - 1) + b'\x74']
            for n in (520 + d, 520, 521): fills += [b'\x4d' + n.to_bytes(2, 'little') + b'a' * n + b'\x51', b'\x00\x63\x4d' + n.to_bytes(2, 'little') + b'a' * n + b'\x68\x51', b'\x4e' + n.to_bytes(4, 'little') + b'\1' * n]
            size = 10000 + d - len(pushes + code + close)
            if size > 8000: fills.append((b'\x4d\x08\x02' + b'a' * 520) * ((size - 600) // 523) + b'\x4d\x04\x01' + b'b' * 260 + b'\x51' * (size - ((size - 600) // 523) * 523 - 263))
            for f in fills:
                for flags in (0, vm.P2SH | vm.MINIMALDATA):
                    same(rep, pushes, code + f + close, flags); same(rep, b'', pushes + code + f + close, flags)
                    same(rep, pushes + code + f + close, b'\x51', flags)
                    if close == b'': same(rep, pushes + code, f, flags); same(rep, b'\x51', pushes + code + f + b'\x51', flags)
                    same(rep, pushes, code + f + close + b'\x51', flags)
                red = code + f + close
                if 0 < len(red) <= 520: same(rep, pushes + T.push(red), p2sh(red), vm.P2SH); same(rep, pushes + b'\x51' + T.push(red), p2sh(red), vm.P2SH)
        rep.sample('limits after %s' % short(disasm(pushes + code)))
    elif kind == 'pushonly':
        # input scripts of many instructions with one operation among them
        n = case[1]
        red = b'\x51'
        for op in (b'', b'\x61', b'\x75', b'\x76', b'\x50', b'\xab', b'\xff', b'\x4f', b'\x60', b'\x6b'):
            for at in sorted({0, 1, n // 2, n - 2, n - 1, n, 199, 200, 254, 255, 256, 257}):
                if at > n: continue
                sig = b'\x51' * at + op + b'\x51' * (n - at - 1)
                for flags in (0, vm.SIGPUSHONLY, vm.P2SH, vm.P2SH | vm.SIGPUSHONLY):
                    same(rep, sig, b'\x51', flags)
                    same(rep, sig + T.push(red), p2sh(red), flags); same(rep, sig + T.push(red) + op, p2sh(red), flags)
        rep.sample('input scripts of %d pushes' % n)
    elif kind == 'lock':
        lock = case[1]
        args = ARGS if not case[2] else ARGS + [B.num_enc(n) for k in range(33) for n in (2 ** k - 1, 2 ** k, 2 ** k + 1)] + [B.num_enc(lock + d) for d in (-1, 0, 1)]
        for arg in args:
            p = push(arg)
            for seq in (0, 1, 0xfffffffe, 0xffffffff):
                for nin in (0, 1, 2):
                    for other in (0, 0xffffffff):
                        seqs = tuple(seq if i == nin else other for i in range(3))
                        for flags in (0, vm.CLTV, vm.DISCOURAGE, vm.CLTV | vm.DISCOURAGE, vm.CLTV | vm.MINIMALDATA, vm.CLTV | vm.P2SH, vm.MINIMALDATA, vm.CLTV | vm.P2SH | vm.MINIMALDATA):
                            same(rep, p, b'\xb1\x75\x51', flags, lock, seqs, nin)
                        if other: continue
                        same(rep, b'', p + b'\xb1' + p + b'\x88\x51', vm.CLTV, lock, seqs, nin)          # the argument stays
                        red = p + b'\xb1\x75\x51'
                        same(rep, T.push(red), p2sh(red), vm.CLTV | vm.P2SH, lock, seqs, nin); same(rep, T.push(red), p2sh(red), vm.CLTV, lock, seqs, nin)
                        same(rep, b'', b'\x51\x00\x63' + p + b'\xb1\x68', vm.CLTV, lock, seqs, nin)
        rep.sample('lock time %d' % lock)


def defined(rep, sig, prog, flags):
    try:
        vm.verify(sig, prog, flags, {'lock': 0, 'seq': 0})
    except vm.Undefined:
        return
    same(rep, sig, prog, flags)

"""C20: verification of spends; verification never raises."""
from ..execute import *
from ..spend import *

ID = 'C20'
RULE = ('State: (scripts, flags, transaction, input, verdict). Two spaces: every script of at most two bytes on either side (and every redeeming script of '
        'at most two bytes behind a script hash, and every signature operation on every small stack), where verification must end with the verdict of the '
        'independent interpreter, never an exception; and, for every standard way to demand signatures, the valid spend together with every way to lack, '
        'forge, misplace, repeat or tamper with a signature, key, script or transaction field, where the verdict must be that of the independent interpreter '
        'with independent signature hashing and ECDSA.')
BOUNDS = {
    'quick': 'scripts of <= 2 bytes: ~33000 locking scripts x 8 unlocking ones x 2 flag sets, ~33000 unlocking scripts x 6 locking ones x 2; 65793 redeeming scripts '
             'of <= 2 bytes x 2 stacks; signature operations x all stacks of depth <= 3 over 12 values; all counts of 0 to 21 keys and signatures x 9 dummies x 3 flag sets; 12 spends x (valid, ~250 forgeries) x 3 flag sets',
    'thorough': 'additionally 20 more unlocking scripts and 6 flag sets; all stacks of depth <= 4 over 7 values; every bit of every signature flipped',
}
ASSUMPTIONS = ['signature checks of the implementation are not implemented (known finding): spends that are valid are expected to be refused until they are']
AFTER = 'scripts that go on after a signature check that failed (... OP_CHECKSIG OP_NOT)'
ALL = vm.P2SH | vm.STRICTENC | vm.DERSIG | vm.LOW_S | vm.NULLDUMMY | vm.SIGPUSHONLY | vm.MINIMALDATA | vm.DISCOURAGE | vm.CLTV
TXID = patterned(32, 90).hex()
SECRETS = [(31, True), (32, True), (33, False)]
PUBS = [pub(*s) for s in SECRETS]

# The transaction that all spends are made in: (tx_id, index, script, sequence)
BASE = (1, ((TXID, 0, b'', 0xffffffff), (TXID[::-1], 3, b'\x51', 5)), ((5000, b'\x51'), (7, b'\x76')), 9)


def small():
    """Every script of at most two bytes that can be parsed."""
    for raw in [b''] + [bytes([a]) for a in range(256)] + [bytes([a, b]) for a in range(256) for b in range(256)]:
        try: T.script_ops(raw)
        except T.Bad: continue
        yield raw


SIGS = [b'', b'\x51', b'\x00', b'\x51\x51', b'\x00\x00\x00', b'\x52\x51\x00\x51', b'\x03abc\x02de', b'\x51' * 7]
MORE = [bytes([a]) for a in (0x4f, 0x52, 0x60)] + [b'\x01\x80', b'\x01\x81', b'\x00\x51', b'\x51\x00', b'\x52\x52', b'\x51\x52\x53', b'\x00\x63', b'\x51\x63', b'\x51\x64', b'\x51\x6b', b'\x05abcde', b'\x06abcdef', b'\x4c\x00', b'\x4d\x00\x00', b'\x4e\x00\x00\x00\x00', b'\x00\x00\x51\x51', b'\x61']
LOCKS = [b'', b'\x51', b'\x00', b'\x75', b'\x87', b'\x68\x51']
NASTY = [b'', b'\x01', b'\x02', b'\x03', b'\x81', b'\x80', b'\x15', PUBS[0], PUBS[2], b'\x30\x06\x02\x01\x01\x02\x01\x01\x01', b'\x02' * 33, b'abcdef']
TINY = [b'', b'\x01', b'\x02', b'\x81', PUBS[0], b'\x30\x06\x02\x01\x01\x02\x01\x01\x01', b'abcdef']


def build(data):
    return Transaction([Input(i, n, Script.from_bytes(s), q) for i, n, s, q in data[1]], [Output(a, Script.from_bytes(s)) for a, s in data[2]], data[3], data[0])


def place(nin, script, data=BASE):
    ins = tuple((i, n, script if j == nin else s, q) for j, (i, n, s, q) in enumerate(data[1]))
    return (data[0], ins, data[2], data[3])


def judge(rep, sig, lock, flags, data=None, nin=0, label=None):
    """label: the known-findings key that excuses a refusal of a valid spend."""
    data = data or BASE
    ran = []
    want = verdict(sig, lock, flags, data, nin, ran)
    tx = _tx(data)
    got = impl(sig, lock, flags, tx, nin)
    rep.step()
    rep.traces += 1
    if got is not want:
        key = None
        if want is True and got is False and ran: key = label or AFTER
        rep.fail('%sverify(%s, %s) with flags 0x%x on input %d gives %s, expected %s' % (
            '%s: ' % label if label else '', short(disasm(sig)), short(disasm(lock)), flags, nin, 'an exception: %r' % got if isinstance(got, Exception) else repr(got), want), key)
    rep.outcome('accepted' if got is True else 'valid, refused (known finding)' if want else 'rejected')
    return want


def verdict(sig, lock, flags, data, nin, ran):
    check = checker(data, nin)
    def checksig(s, k, code, fl):
        ran.append(1)
        return check(s, k, code, fl)
    ctx = {'checksig': checksig, 'lock': data[3], 'seq': data[1][nin][3]}
    return vm.verify(sig, lock, flags, ctx)


_built = {}
def _tx(data):
    if data not in _built:
        if len(_built) > 2000: _built.clear()
        _built[data] = build(data)
    return _built[data]


# -- spends

def make_sig(secret, data, nin, code, htype=1, k=7777):
    e = int.from_bytes(T.sighash(data, nin, code, htype), 'big')
    r, s = ec.sign(secret, e, k + secret)[:2]
    if s > N // 2: s = N - s
    return B.der(r, s) + bytes([htype])


def spec(i):
    """(name, locking script, script that is signed, secrets of the signatures, function: signatures -> unlocking script)"""
    P = PUBS
    p2pk = lambda p: T.push(p) + b'\xac'
    def bare(m, which):
        code = multisig(m, [P[j] for j in which])
        return code, code, [SECRETS[j][0] for j in which[:m]], lambda sigs: b'\0' + b''.join(map(push, sigs))
    def hashed(m, which):
        code = multisig(m, [P[j] for j in which])
        return p2sh(code), code, [SECRETS[j][0] for j in which[:m]], lambda sigs: b'\0' + b''.join(map(push, sigs)) + T.push(code)
    table = [
        ('pay to address', lambda: (p2pkh(B.hash160(P[0])),) * 2 + ([31], lambda s: push(s[0]) + T.push(P[0]))),
        ('pay to address, uncompressed key', lambda: (p2pkh(B.hash160(P[2])),) * 2 + ([33], lambda s: push(s[0]) + T.push(P[2]))),
        ('pay to public key', lambda: (p2pk(P[0]),) * 2 + ([31], lambda s: push(s[0]))),
        ('pay to public key, verified', lambda: (T.push(P[1]) + b'\xad\x51',) * 2 + ([32], lambda s: push(s[0]))),
        ('1 of 1', lambda: bare(1, (0,))), ('1 of 2', lambda: bare(1, (0, 1))), ('1 of 2, second key', lambda: bare(1, (0, 1))[:2] + ([32], lambda s: b'\0' + push(s[0]))),
        ('2 of 2', lambda: bare(2, (0, 1))), ('2 of 3', lambda: bare(2, (0, 1, 2))), ('2 of 3, last keys', lambda: bare(2, (0, 1, 2))[:2] + ([32, 33], lambda s: b'\0' + push(s[0]) + push(s[1]))),
        ('script hash 1 of 2', lambda: hashed(1, (0, 1))), ('script hash 2 of 3', lambda: hashed(2, (0, 1, 2))),
    ]
    return (table[i][0],) + tuple(table[i][1]())
NSPECS = 12


def cases(tier):
    t = tier == 'thorough'
    for part in range(64): yield ('lock', part, t); yield ('unlock', part, t)
    for hi in range(0, 256, 4): yield ('redeem', hi)
    for op in (0xac, 0xad, 0xae, 0xaf, 0xab):
        for i in range(len(NASTY)): yield ('sigop', op, i)
        if t:
            for i in range(len(TINY)): yield ('sigop4', op, i)
    for n in range(0, 22): yield ('counts', n)
    for i in range(NSPECS):
        for nin in (0, 1):
            for htype in (1, 2, 3, 0x81, 0x82, 0x83): yield ('valid', i, nin, htype)
            yield ('forged', i, nin); yield ('tampered', i, nin)
        for part in range(8): yield ('bytes', i, part, t)


def run(case, rep):
    kind = case[0]
    if kind == 'lock':
        for j, raw in enumerate(small()):
            if j % 64 != case[1]: continue
            for s in SIGS + (MORE if case[2] else []):
                for flags in (0, ALL) + ((vm.P2SH, vm.MINIMALDATA, vm.NULLDUMMY, vm.CLTV) if case[2] else ()): judge(rep, s, raw, flags)
            rep.state('lock', raw)
    elif kind == 'unlock':
        for j, raw in enumerate(small()):
            if j % 64 != case[1]: continue
            for lock in LOCKS:
                for flags in (0, ALL): judge(rep, raw, lock, flags)
            rep.state('unlock', raw)
    elif kind == 'redeem':
        for raw in [bytes([a]) for a in range(case[1], case[1] + 4)] + [bytes([a, b]) for a in range(case[1], case[1] + 4) for b in range(256)] + ([b''] if case[1] == 0 else []):
            lock = p2sh(raw)
            for args in (b'', b'\x51\x52\x51'):
                judge(rep, args + (T.push(raw) if raw else b'\0'), lock, vm.P2SH, BASE, 1)
            judge(rep, T.push(raw) if raw else b'\0', lock, 0)
            rep.state('redeem', raw)
    elif kind in ('sigop', 'sigop4'):
        op = bytes([case[1]])
        values, depths = (NASTY, (1, 2, 3)) if kind == 'sigop' else (TINY, (4,))
        for n in depths:
            for rest in itertools.product(values, repeat=n - 1):
                st = (values[case[2]],) + rest
                s = b''.join(map(push, st))
                rep.state('sigop', op, st)
                for flags in (0, ALL & ~vm.SIGPUSHONLY & ~vm.MINIMALDATA): judge(rep, s, op, flags); judge(rep, s, op + b'\x91', flags); judge(rep, s, op + b'\x51', flags)
                judge(rep, s + op, b'', 0); judge(rep, b'\x00', s + op, 0); judge(rep, b'\x51', b'\x00\x63' + op + b'\x68', 0)
        if case[2] == 0: judge(rep, b'', op, 0); judge(rep, b'\x51', op, 0); judge(rep, b'', op, ALL)
    elif kind == 'counts':      # every number of keys and signatures, with every dummy
        n = case[1]
        sig = B.der(5, 7) + b'\x01'
        for m in range(0, n + 2):
            for op in (b'\xae', b'\xaf', b'\xae\x91', b'\xaf\x51'):
                tail = push(B.num_enc(m)) + b''.join(push(PUBS[j % 3]) for j in range(n)) + push(B.num_enc(n)) + op
                for d in (b'', b'\0', b'\x01\x00', b'\x01\x80', b'\x51', b'\x01\x51', b'\x02\0\0', b'\x53\0', b'\0\x53'):
                    for flags in (0, vm.NULLDUMMY, vm.NULLDUMMY | vm.P2SH):
                        judge(rep, d, (b'\0' if m % 2 else push(sig)) * m + tail, flags)
                rep.state('counts', n, m, op)
        for k in range(0, n + 4): judge(rep, b'\x51' * k, push(B.num_enc(n)) + b'\xae', vm.NULLDUMMY); judge(rep, b'\0' * k, push(B.num_enc(n)) + b'\xae', 0)
    elif kind == 'valid':
        _, i, nin, htype = case
        name, lock, code, secrets, unlock = spec(i)
        sigs = [make_sig(d, BASE, nin, code, htype) for d in secrets]
        raw = unlock(sigs)
        data = place(nin, raw)
        for flags in (STANDARD, vm.P2SH, ALL & ~vm.CLTV & ~vm.DISCOURAGE):
            want = judge(rep, raw, lock, flags, data, nin, 'valid spend: ' + name)
            rep.state('valid', i, nin, htype, flags)
            assert want, 'the reference refuses its own spend: %r' % (case,)
        rep.sample('%s, input %d, type 0x%x' % (name, nin, htype))
    elif kind == 'forged':
        _, i, nin = case
        name, lock, code, secrets, unlock = spec(i)
        good = [make_sig(d, BASE, nin, code) for d in secrets]
        bad = {
            'empty': b'', 'one byte': b'\x01', 'by another key': make_sig(99, BASE, nin, code), 'for the other input': make_sig(secrets[0], BASE, 1 - nin, code), 'for another script': make_sig(secrets[0], BASE, nin, lock + b'\x61'),
            'of another type': good[0][:-1] + b'\x02', 'type 0': good[0][:-1] + b'\x00', 'type 0x81': good[0][:-1] + b'\x81', 'without type': good[0][:-1], 'zero r': B.der(0, 5) + b'\x01', 'zero s': B.der(5, 0) + b'\x01',
            'r = 1, s = 1': B.der(1, 1) + b'\x01', 'order': B.der(N, N) + b'\x01', 'high s': high(good[0]), 'swapped': swapped(good[0]), 'other version': make_sig(secrets[0], (2,) + BASE[1:], nin, code),
            'other lock time': make_sig(secrets[0], BASE[:3] + (10,), nin, code), 'key as signature': PUBS[0], 'doubled': good[0] + good[0], 'digest of the id': make_sig(secrets[0], BASE, nin, b''),
            'SINGLE without output': make_sig(secrets[0], BASE, nin, code, 3)[:-1] + b'\x01',
        }
        for why, s in bad.items():
            for pos in range(len(good)):
                lst = list(good); lst[pos] = s
                put(rep, unlock, lst, lock, nin, (why, pos), name)
        if len(good) == 2:
            for lst in ([good[1], good[0]], [good[0], good[0]], [good[1], good[1]], [b'', b''], [good[0], b''], [b'', good[1]]): put(rep, unlock, lst, lock, nin, ('order', len(lst)), name)
        raw = unlock(good)
        ops = [(o, d) for o, d in T.script_ops(raw)]
        pieces = [bytes([o]) if d is None else push(d) for o, d in ops]
        for j in range(len(pieces)):                     # every piece left out, repeated, or moved
            tries(rep, b''.join(pieces[:j] + pieces[j + 1:]), lock, nin, name); tries(rep, b''.join(pieces[:j] + [pieces[j]] * 2 + pieces[j + 1:]), lock, nin, name)
            for k in range(len(pieces)):
                if k != j:
                    q = list(pieces); x = q.pop(j); q.insert(k, x)
                    tries(rep, b''.join(q), lock, nin, name)
        for extra in (b'\x51', b'\x00', b'\x61', b'\x75', b'\x6a', b'\x76'): tries(rep, raw + extra, lock, nin, name); tries(rep, extra + raw, lock, nin, name)
        for alone in (b'', b'\x00', b'\x51', b'\x51\x51', b'\x51\x51\x51\x51', b'\x00\x00', b'\x00\x00\x00\x00', b'\x00' + pieces[-1], pieces[-1]): tries(rep, alone, lock, nin, name)
        for other in PUBS + [pub(31, False), b'\x04' * 65, b'\x02' + b'\0' * 32, b'', b'\0']:      # another key
            for j, (o, d) in enumerate(ops):
                if d is not None and len(d) in (33, 65) and d != other: tries(rep, b''.join(pieces[:j] + [push(other)] + pieces[j + 1:]), lock, nin, name)
        # the right unlocking script for another lock
        for k in range(NSPECS):
            if k != i: tries(rep, raw, spec(k)[1], nin, name)
        tries(rep, raw, lock + b'\x61\x91', nin, name); tries(rep, raw, lock[:-1] + bytes([lock[-1] ^ 1]), nin, name)
    elif kind == 'tampered':
        _, i, nin = case
        name, lock, code, secrets, unlock = spec(i)
        raw = unlock([make_sig(d, BASE, nin, code) for d in secrets])
        v, ins, outs, lt = place(nin, raw)
        def new(j, **kw):
            x = dict(zip('inseq', (0, 0, 0, 0, 0)))
            a, b, c, d = ins[j]
            a, b, c, d = kw.get('txid', a), kw.get('index', b), kw.get('script', c), kw.get('seq', d)
            return (v, ins[:j] + ((a, b, c, d),) + ins[j + 1:], outs, lt)
        datas = [(v + 1, ins, outs, lt), (v, ins, outs, lt + 1), (v, ins, outs, 0), (v, ins, outs[:1], lt), (v, ins, outs[::-1], lt), (v, ins, outs + ((1, b'\x51'),), lt), (v, ins, ((5001, b'\x51'), outs[1]), lt),
                 (v, ins, (outs[0], (6, b'\x76')), lt), (v, ins, ((5000, b'\x52'), outs[1]), lt), (v, ins, (outs[0], (7, b'\x77')), lt), (v, ins + ((TXID, 7, b'', 1),), outs, lt)]
        for j in (0, 1): datas += [new(j, txid=TXID[2:] + '00'), new(j, index=9), new(j, seq=77)]
        for data in datas:
            for flags in (STANDARD, vm.P2SH): judge(rep, raw, lock, flags, data, nin, 'valid spend: ' + name); rep.state('tampered', i, nin, data)
        judge(rep, raw, lock, STANDARD, new(1 - nin, script=b'\x55'), nin, 'valid spend: ' + name)      # not signed: still valid
        if nin == 0: judge(rep, raw, lock, STANDARD, (v, (ins[0], (ins[1][0], 3, raw, 5)), outs, lt), 1, 'valid spend: ' + name)
        else: judge(rep, raw, lock, STANDARD, (v, ((ins[0][0], 0, raw, 0xffffffff), ins[1]), outs, lt), 0, 'valid spend: ' + name)
    elif kind == 'bytes':
        _, i, part, t = case
        name, lock, code, secrets, unlock = spec(i)
        good = [make_sig(d, BASE, 0, code) for d in secrets]
        for pos in range(len(good)):
            for j in range(len(good[pos])):
                if j % 8 != part: continue
                for bit in range(8) if t else (0, 7):
                    lst = list(good)
                    lst[pos] = lst[pos][:j] + bytes([lst[pos][j] ^ (1 << bit)]) + lst[pos][j + 1:]
                    raw = unlock(lst)
                    judge(rep, raw, lock, STANDARD, place(0, raw), 0, 'valid spend: ' + name)
                    rep.state('bytes', i, pos, j, bit)
        if part == 0: 
            raw = unlock(good)
            for j in range(len(raw)):
                m = raw[:j] + bytes([raw[j] ^ 1]) + raw[j + 1:]
                try: T.script_ops(m)
                except T.Bad: continue
                judge(rep, m, lock, STANDARD, place(0, m), 0, 'valid spend: ' + name)


def high(sig):
    r, s = B.der_parse(sig[:-1])
    return B.der(r, N - s) + sig[-1:]


def swapped(sig):
    r, s = B.der_parse(sig[:-1])
    return B.der(s, r) + sig[-1:]


def put(rep, unlock, lst, lock, nin, why, name):
    tries(rep, unlock(lst), lock, nin, name)


def tries(rep, raw, lock, nin, name):
    data = place(nin, raw)
    rep.state('forged', raw, lock, nin)
    for flags in (STANDARD, STANDARD & ~vm.SIGPUSHONLY & ~vm.MINIMALDATA, vm.P2SH | vm.DERSIG): judge(rep, raw, lock, flags, data, nin, 'valid spend: ' + name)

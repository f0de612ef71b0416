"""C11: signing transactions, in every order."""
from ..common import *
from ..spend import *

ID = 'C11'
RULE = ('State: (transaction as plain data without signatures, set of signed inputs, order of signing). Transition: sign one input. From '
        'every combination of input kinds all orders of signing all subsets are explored; after every step every signed input is run by an '
        'independent script interpreter with independent signature hashes against its locking script, everything else is compared with '
        'the expected plain data, and the transaction signed is compared with what it was before.')
BOUNDS = {
    'quick': '1 and 2 inputs: all combinations of 6 kinds (P2PKH compressed/uncompressed, 1-of-1, 2-of-2, 2-of-3 multisig, an input that was '
             'signed elsewhere) and all signing orders; 3 inputs: 10 combinations, all 15 order prefixes; 10 combinations with inputs equal to each other; 1..3 outputs; 252..254 inputs or '
             'outputs; multisig up to 15 keys; 6 signature hash types on 12 transactions, the other 250 on 2; field values at their bounds and of every bit length; transaction identifiers with every first and last byte (quick: 110 of them); secrets of every bit length; 4..200 inputs or outputs; all wrong key counts 0..4, all bad indexes',
    'thorough': '3 inputs: all combinations of 4 kinds; multisig up to all m of n <= 15; all indexes of 254 inputs',
}
A, U, C3, D4, E5 = (11, True, 'livenet'), (12, False, 'livenet'), (13, True, 'testnet'), (N - 14, True, 'livenet'), (2 ** 200, False, 'testnet')
KINDS = {
    'a': ('pkh', [A]), 'u': ('pkh', [U]), 't': ('pkh', [C3]),
    'm': ('multi', 1, [A], [A]), 'n': ('multi', 2, [U, C3], [C3, U]), 'o': ('multi', 2, [A, U, D4], [D4, A]),
    's': ('script', [A, C3]),            # the same condition as a 2-of-2, through ScriptInput
    'g': ('signed',),
}
TXID = [patterned(32, 40 + i).hex() for i in range(4)]


def build(kind, i, seq, txid=None, index=None):
    """(input object, its plain data while unsigned, locking script, keys, expected number of signatures)"""
    spec = KINDS[kind]
    h, n = TXID[i % 4], (0, 1, 2 ** 32 - 1, 256)[i % 4]
    if txid is not None: h = txid
    if index is not None: n = index
    if spec[0] == 'pkh':
        lock = p2pkh(B.hash160(key_pub(spec[1][0])))
        addr = Address(B.hash160(key_pub(spec[1][0])), NETS[spec[1][0][2]])
        return AddressInput.create(h, n, addr, seq), (h, n, lock, seq), lock, spec[1], 1
    if spec[0] == 'multi':
        redeem = multisig(spec[1], [key_pub(k) for k in spec[2]])
        pubs = [PublicKey.from_bytes(key_pub(k)) for k in spec[2]]
        return MultisigInput.create(h, n, pubs, spec[1], seq), (h, n, redeem, seq), p2sh(redeem), spec[3], spec[1]
    if spec[0] == 'script':
        redeem = multisig(2, [key_pub(k) for k in spec[1]])
        return ScriptInput.create(h, n, Script.from_bytes(redeem), seq), (h, n, redeem, seq), p2sh(redeem), spec[1], 2
    script = T.push(patterned(71, 50)) + T.push(key_pub(A))
    return Input(h, n, Script.from_bytes(script), seq), (h, n, script, seq), None, [A], 0


def outputs(n):
    outs = [(Output(1000 * k + 1, Script.from_bytes(s)), (1000 * k + 1, s)) for k, s in
            enumerate([p2pkh(patterned(20, 60)), p2sh(b'\x51'), b'\x6a\x04data', b''] * (n // 4 + 1))][:n]
    return [o for o, _ in outs], tuple(d for _, d in outs)


def check_signed(rep, tx, before, i, lock, nsigs, what, sigtype=1, pubs=None):
    """tx (an object) is `before` (plain data) with input i signed; returns the new plain data."""
    after = view(tx)
    rep.check(type(tx) is Transaction, '%s: not a transaction: %s', what, type(tx))
    want = (before[0], before[1][:i] + ((before[1][i][0], before[1][i][1], after[1][i][2] if i < len(after[1]) else None, before[1][i][3]),) + before[1][i + 1:],
            before[2], before[3])
    rep.equal(after, want, '%s: everything but the script of input %d' % (what, i))
    check_spend(rep, after, i, lock, nsigs, what, sigtype)
    return after


def check_spend(rep, data, i, lock, nsigs, what, sigtype=1):
    script = data[1][i][2]
    ops = T.script_ops(script)
    sigs = [d for _, d in ops[:-1] if d]
    rep.equal(len(sigs), nsigs, '%s: signatures in input %d' % (what, i))
    for s in sigs:
        rep.check(s[-1] == sigtype, '%s: signature with type %d instead of %d', what, s[-1], sigtype)
        rep.check(B.strict_der(s), '%s: badly encoded signature %s', what, s.hex())
    flags = STANDARD
    rep.traces += 1
    if not spends(data, i, lock, flags):
        rep.fail('%s: input %d (%s) does not satisfy %s' % (what, i, script.hex(), lock.hex()))


def cases(tier):
    for k in 'autmnosg': yield ('history', (k,), 1, 0)
    for ks in itertools.product('aunosg', repeat=2): yield ('history', ks, 2, 1)
    three = [('a', 'u', 'o'), ('a', 'a', 'a'), ('m', 'a', 'g'), ('g', 'n', 'a'), ('o', 'o', 'a'), ('u', 's', 'm'), ('g', 'a', 'u'), ('a', 'g', 'o'), ('n', 'u', 'm'), ('t', 'a', 'a')]
    for ks in (three if tier == 'quick' else itertools.product('auog', repeat=3)): yield ('history', tuple(ks), (ks.count('a') + 1), 2)
    for ks in itertools.product('aumnos', repeat=1): yield ('equal', ks * 2)
    for ks in (('a', 'a', 'a'), ('a', 'o', 'a'), ('o', 'o', 'a'), ('n', 'a', 'n')): yield ('equal', ks)
    for v in (0, 1, 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
        for f in ('version', 'lock', 'seq', 'otherseq'): yield ('field', f, v)
    yield ('field', 'amount', 2 ** 64 - 1)
    yield ('field', 'amount', 0)
    yield ('field', 'amount', 2 ** 32)
    thin = (lambda w, hi: sorted({v for k in range(1, w) for v in (2 ** k, 2 ** (k + 1) - 1 - 2 ** (k // 2)) if 2 <= v <= hi})) if tier == 'quick' else (lambda w, hi: bitints(w, 2, hi))
    for v in thin(32, 2 ** 32 - 1) + [int.from_bytes(bytes([b, 0x11, 0x22, b]), 'big') for b in ((0x7f, 0x80, 0xfe, 0xff, 0x0a, 0x20) if tier == 'quick' else range(256))]:
        for f in ('version', 'lock', 'seq', 'otherseq', 'index'): yield ('field', f, v)
    for v in thin(64, 2 ** 64 - 1): yield ('field', 'amount', v)
    for b in (range(256) if tier == 'thorough' else [v for v in range(256) if v % 3 == 0 or v < 34 or v > 250 or v in (0x7f, 0x80)]): yield ('txid', b)
    for v in thin(256, N - 1)[::2 if tier == 'quick' else 1]: yield ('secret', v)
    for n in (4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 75, 76, 77, 100, 127, 128, 129, 200) if tier == 'quick' else range(4, 252):
        yield ('many', n, 3, n - 1)
        yield ('many', n, 1, n // 2)
        yield ('many', 3, n, 1)
    for n in (252, 253, 254):
        for i in ((0, 1, n - 1) if tier == 'quick' else range(0, n, 11)): yield ('many', n, 1, i)
        yield ('many', 2, n, 1)
        yield ('many', 1, n, 0)
    for n in range(1, 16):
        for m in ([1, n] if tier == 'quick' else range(1, n + 1)):
            if m <= n and (m, n) != (15, 15) or tier == 'thorough': yield ('multi', m, n, n % 3)
    for t in (1, 2, 3, 0x81, 0x82, 0x83):
        for k in 'ano':
            for (ni, no, i) in ((1, 1, 0), (2, 2, 1), (3, 1, 2), (2, 1, 0)): yield ('type', t, k, ni, no, i)
    for t in range(256):                     # every byte is a type: unused bits are signed, and mean nothing
        if t not in (1, 2, 3, 0x81, 0x82, 0x83):
            for (ni, no, i) in ((2, 2, 1), (2, 3, 0)) if tier == 'quick' else ((1, 1, 0), (2, 2, 1), (3, 1, 2), (2, 3, 0)): yield ('type', t, 'a', ni, no, i)
    for ni in (1, 2, 3):
        for no in (1, 2, 3, 4): yield ('shape', ni, no)
    for k in 'autmnosg': yield ('wrong', k)


def run(case, rep):
    kind = case[0]
    if kind in ('history', 'equal'):
        if kind == 'history':
            _, ks, nout, lock_i = case
            built = [build(k, i, (0xffffffff, 0, 0xfffffffe)[(i + lock_i) % 3]) for i, k in enumerate(ks)]
        else:                                # inputs that are equal to each other
            ks, nout, lock_i = case[1], 2, 0
            built = [build(k, 1, 6) for i, k in enumerate(ks)]
            if len(ks) == 3: built[2] = (built[ks.index(ks[2])][0],) + built[2][1:]        # even the same object
        outs, douts = outputs(nout)
        lock_time = (0, 1, 500000000)[lock_i]
        tx = Transaction([b[0] for b in built], outs, lock_time, 1 + lock_i)
        data = (1 + lock_i, tuple(b[1] for b in built), douts, lock_time)
        rep.equal(view(tx), data, 'unsigned transaction of %s' % (ks,))
        frozen = tx.to_bytes()

        def explore(tx, data, order):
            rep.state(ks, nout, order)
            raw = tx.to_bytes()
            for i in range(len(ks)):
                what = 'inputs %s, signed %s, then %d' % (ks, order, i)
                rep.step()
                if i in order or ks[i] == 'g':
                    # already signed: there is no way to sign it again
                    k, got = call(tx.sign, [keys(s) for s in built[i][3]], i)
                    if k == 'ok':
                        rep.fail('%s: signed a second time' % what)
                    rep.outcome('refused')
                    continue
                got = tx.sign([keys(s) for s in built[i][3]], i)
                rep.equal((tx.to_bytes(), view(tx)), (raw, data), '%s: the transaction that was signed' % what)
                after = check_signed(rep, got, data, i, built[i][2], built[i][4], what)
                for j in order: check_spend(rep, after, j, built[j][2], built[j][4], what + ', earlier input')
                rep.outcome('signed')
                explore(got, after, order + (i,))
        explore(tx, data, ())
        rep.equal(tx.to_bytes(), frozen, 'the first transaction')
        rep.sample('inputs %s, %d outputs, lock time %d' % (''.join(ks), nout, lock_time))
    elif kind == 'field':
        _, f, v = case
        version, lock, seq, other, amount, index = 1, 0, 5, 6, 7, None
        if f == 'version': version = v
        elif f == 'lock': lock = v
        elif f == 'seq': seq = v
        elif f == 'otherseq': other = v
        elif f == 'index': index = v
        else: amount = v
        b0, b1 = build('a', 0, seq, index=index), build('o', 1, other, index=index)
        outs = [Output(amount, Script.from_bytes(b'\x51')), Output(3, Script())]
        data = (version, (b0[1], b1[1]), ((amount, b'\x51'), (3, b'')), lock)
        tx = Transaction([b0[0], b1[0]], outs, lock, version)
        rep.state(case)
        rep.step(2)
        one = tx.sign([keys(s) for s in b0[3]], 0)
        d1 = check_signed(rep, one, data, 0, b0[2], 1, '%s = %d' % (f, v))
        two = one.sign([keys(s) for s in b1[3]], 1)
        d2 = check_signed(rep, two, d1, 1, b1[2], 2, '%s = %d' % (f, v))
        check_spend(rep, d2, 0, b0[2], 1, '%s = %d, first input' % (f, v))
        rep.outcome('signed', 2)
    elif kind in ('txid', 'secret'):
        if kind == 'txid':                   # transaction identifiers with this first, last, or only byte
            b = bytes([case[1]])
            h0, h1 = (b + patterned(31, 3)).hex(), (patterned(31, 5) + b).hex()
            if case[1] % 16 == 0: h1 = (b * 32).hex()
            b0, b1 = build('a', 0, 1, txid=h0), build('u', 1, 2, txid=h1)
        else:                                # keys of every size
            KINDS['x'] = ('pkh', [(case[1], case[1].bit_length() % 3 != 0, NETNAMES[case[1].bit_length() % 2])])
            KINDS['y'] = ('multi', 2, [A, (case[1], True, 'livenet'), U], [(case[1], True, 'livenet'), A])
            b0, b1 = build('x', 0, 1), build('y', 1, 2)
        outs, douts = outputs(2)
        tx = Transaction([b0[0], b1[0]], outs, 0, 1)
        data = (1, (b0[1], b1[1]), douts, 0)
        rep.state(case)
        rep.step(2)
        rep.equal(view(tx), data, 'unsigned transaction, %s %d' % case)
        one = tx.sign([keys(s) for s in b1[3]], 1)
        d1 = check_signed(rep, one, data, 1, b1[2], b1[4], '%s %d' % case)
        two = one.sign([keys(s) for s in b0[3]], 0)
        d2 = check_signed(rep, two, d1, 0, b0[2], b0[4], '%s %d' % case)
        check_spend(rep, d2, 1, b1[2], b1[4], '%s %d, other input' % case)
        rep.outcome('signed', 2)
    elif kind == 'shape':                    # versions, lock times and numbers of inputs and outputs together
        _, ni, no = case
        built = [build('a' if j % 2 == 0 else 'u', j, (0, 2 ** 32 - 1, 7)[j]) for j in range(ni)]
        outs, douts = outputs(no)
        for version in (0, 1, 2, 3, 2 ** 31):
            for lock in (0, 1, 499999999, 500000000, 2 ** 32 - 1):
                tx = Transaction([b[0] for b in built], outs, lock, version)
                data = (version, tuple(b[1] for b in built), douts, lock)
                i = (version + lock) % ni
                rep.state(case, version, lock)
                rep.step()
                check_signed(rep, tx.sign([keys(s) for s in built[i][3]], i), data, i, built[i][2], 1, 'version %d, lock time %d, %d inputs, %d outputs' % (version, lock, ni, no))
                rep.outcome('signed')
    elif kind == 'many':
        _, ni, no, i = case
        built = [build('a' if j % 2 == 0 else 'u', j, j) for j in range(ni)]
        outs, douts = outputs(no)
        tx = Transaction([b[0] for b in built], outs, 0, 1)
        data = (1, tuple(b[1] for b in built), douts, 0)
        rep.state(case)
        rep.step()
        got = tx.sign([keys(s) for s in built[i][3]], i)
        check_signed(rep, got, data, i, built[i][2], 1, '%d inputs, %d outputs, input %d' % (ni, no, i))
        rep.outcome('signed')
    elif kind == 'multi':
        _, m, n, rot = case
        specs = [(100 + k * 8 % 17, (k % 4 != 3) if n <= 9 else True, NETNAMES[k % 2]) for k in range(n)]
        pubs = [key_pub(s) for s in specs]
        redeem = multisig(m, pubs)
        inp = MultisigInput.create(TXID[0], 1, [PublicKey.from_bytes(p) for p in pubs], m, 9)
        data = (1, ((TXID[0], 1, redeem, 9),), ((5, b'\x51'),), 0)
        tx = Transaction([inp], [Output(5, Script.from_bytes(b'\x51'))])
        rep.state(case)
        rep.equal(view(tx), data, 'unsigned %d of %d' % (m, n))
        chosen = (specs[rot % n:] + specs[:rot % n])[:m][::-1]
        rep.step()
        got = tx.sign([keys(s) for s in chosen], 0)
        check_signed(rep, got, data, 0, p2sh(redeem), m, '%d of %d' % (m, n))
        rep.outcome('signed')
        rep.sample('%d of %d keys, redeem script of %d bytes' % (m, n, len(redeem)))
    elif kind == 'type':
        _, t, k, ni, no, i = case
        built = [build(k if j == i else 'u', j, 7 + j) for j in range(ni)]
        outs, douts = outputs(no)
        tx = Transaction([b[0] for b in built], outs, 0, 1)
        data = (1, tuple(b[1] for b in built), douts, 0)
        rep.state(case)
        rep.step()
        known = t & 0x7f in (1, 2, 3)
        state, got = call(tx.sign, [keys(s) for s in built[i][3]], i, t)
        if state == 'err':
            if known or not isinstance(got, (BitforgeError, ValueError)): rep.fail('hash type 0x%02x: %s: %s' % (t, type(got).__name__, str_of(got)))
            rep.outcome('type refused')
            return
        check_signed(rep, got, data, i, built[i][2], built[i][4], 'hash type 0x%02x, %s, %d inputs, %d outputs, input %d' % (t, k, ni, no, i), t)
        rep.equal(view(tx), data, 'the transaction that was signed')
        rep.outcome('signed with type 0x%02x' % t if known else 'signed with another type')
    elif kind == 'wrong':
        k = case[1]
        built = [build(k, 0, 1), build('a', 1, 2)]
        outs, douts = outputs(2)
        tx = Transaction([b[0] for b in built], outs, 0, 1)
        data = (1, tuple(b[1] for b in built), douts, 0)
        have = [keys(s) for s in built[0][3]]
        for bad in (-1, -2, -3, 2, 3, 4, 2 ** 31, -2 ** 31):
            rep.state(case, bad)
            refused(rep, BitforgeError, 'sign input %d of 2' % bad, tx.sign, have, bad)
        if k == 'g':
            for n in range(0, 4): refused(rep, BitforgeError, 'sign an input of unknown kind', tx.sign, (have * 4)[:n], 0)
        elif k != 's':
            pool = have + [keys(s) for s in (A, U, C3, D4, E5)]
            for n in range(0, 5):
                if n == built[0][4]: continue
                rep.state(case, 'count', n)
                refused(rep, BitforgeError, 'sign input %s with %d keys' % (k, n), tx.sign, pool[:n], 0)
                refused(rep, BitforgeError, 'sign input %s with %d keys' % (k, n), tx.sign, tuple(pool[:n]), 0, 1)
                refused(rep, BitforgeError, 'sign input object %s with %d keys' % (k, n), tx.inputs[0].sign, pool[:n], b'\1' * 32)
        rep.equal(view(tx), data, 'the transaction after refusals')
        rep.outcome('refused')

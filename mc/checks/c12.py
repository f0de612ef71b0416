"""C12: can_sign() tells the truth."""
from ..common import *
from ..spend import *

ID = 'C12'
RULE = ('State: (input condition, list of private keys). For every list over a small universe of keys the answer of can_sign() is compared '
        'with the set-theoretic definition; whenever it is yes, the input is signed with those keys in that order and the result is run by '
        'an independent interpreter against the locking script.')
BOUNDS = {
    'quick': '12 multi-signature conditions (n <= 3, every m, several key orders, compressed and uncompressed keys) x every key list of '
             'length <= 3 over 7 keys (members, the same secrets in the other compression or network, outsiders); n = 5 and 15: all subsets '
             'of one size up to order; address inputs x every list of length <= 2; addresses one bit away from the one of the key (all 160 bits); groups with negated or recompressed keys; secrets of every bit length, with their neighbours',
    'thorough': '20 conditions and every list of length <= 4',
}
A, Bk, C = (21, True, 'livenet'), (22, True, 'livenet'), (23, False, 'livenet')
AU, AT, BT, D = (21, False, 'livenet'), (21, True, 'testnet'), (22, True, 'testnet'), (24, True, 'livenet')
POOL = [A, Bk, C, AU, AT, D, BT]
CONDS = [(1, (A,)), (1, (C,)), (1, (A, Bk)), (2, (A, Bk)), (2, (Bk, A)), (1, (Bk, C)), (2, (AU, A)), (1, (A, Bk, C)), (2, (A, Bk, C)), (3, (A, Bk, C)), (2, (C, Bk, A)), (3, (Bk, C, A)),
         (2, (AU, A, Bk)), (3, (AU, A, Bk)), (2, (C, A)), (3, (C, A, Bk)), (1, (D, C, A)), (2, (A, C, Bk)), (3, (A, C, Bk)), (3, (C, Bk, A))]
PRIV = {}
TXID = patterned(32, 70).hex()


def cases(tier):
    t = tier == 'thorough'
    for ci in range(len(CONDS) if t else 12):
        yield ('multi', ci, ())
        for n in range(1, 5 if t else 4):
            for first in range(len(POOL)):
                if n <= 2: yield ('multi', ci, (first,), n)
                else:
                    for second in range(len(POOL)): yield ('multi', ci, (first, second), n)
    for i in range(len(POOL)): yield ('address', i)
    for i in range(len(POOL)): yield ('near', i)
    for i in (0, 2): yield ('nearkeys', i)
    for v in (bitints(256, 2, N - 1) if t else [2 ** k + k * 2 ** (k // 2) for k in range(2, 256)]) + [N - 1, N - 2, N // 2, N // 2 + 1]: yield ('secret', v)
    for n, m in ((5, 3), (5, 2), (4, 4), (15, 2), (15, 14), (7, 6), (6, 6), (8, 8), (9, 9), (10, 9), (12, 11), (15, 15), (15, 1), (12, 1), (10, 2)):
        for part in range(8): yield ('large', n, m, part)


def priv(spec):
    if spec not in PRIV: PRIV[spec] = keys(spec)
    return PRIV[spec]


def lists(prefix, n):
    for rest in itertools.product(range(len(POOL)), repeat=n - len(prefix)): yield prefix + rest


def judge(rep, inp, lock, m, members, chosen, what):
    pubs = [key_pub(s) for s in chosen]
    want = len(chosen) == m and len(set(pubs)) == len(pubs) and all(p in members for p in pubs)
    rep.state(lock, tuple(chosen))
    rep.step()
    for seq in (list, tuple) if len(chosen) < 3 else (list,):
        given = seq(priv(s) for s in chosen)
        kind, got = call(inp.can_sign, given)
        rep.traces += 1
        if kind == 'err': rep.fail('%s: can_sign raised %s: %s' % (what, type(got).__name__, str_of(got)))
        if bool(got) != want: rep.fail('%s: can_sign says %r' % (what, got))
        if list(given) != [priv(s) for s in chosen]: rep.fail('%s: can_sign changed the list of keys' % what)
    rep.outcome('can sign' if want else 'can not sign')
    if want:
        tx = Transaction([inp], [Output(1, Script.from_bytes(b'\x51'))])
        signed = tx.sign([priv(s) for s in chosen], 0)
        rep.step()
        data = view(signed)
        sigs = [d for _, d in T.script_ops(data[1][0][2])[:-1] if d]
        rep.equal(len(sigs), m, '%s: number of signatures' % what)
        rep.check(spends(data, 0, lock), '%s: signed, but %s does not satisfy %s', what, data[1][0][2].hex(), lock.hex())
        rep.traces += 1
    return want


def run(case, rep):
    kind = case[0]
    if kind == 'multi':
        m, members = CONDS[case[1]]
        pubs = [key_pub(s) for s in members]
        redeem = multisig(m, pubs)
        inp = MultisigInput.create(TXID, 0, [PublicKey.from_bytes(p) for p in pubs], m)
        rep.equal(inp.script.to_bytes(), redeem, 'condition %d of %s' % (m, members))
        prefix = case[2]
        for combo in ([()] if len(case) == 3 else lists(prefix, case[3])):
            chosen = [POOL[i] for i in combo]
            judge(rep, inp, p2sh(redeem), m, pubs, chosen, '%d of %s with %s' % (m, members, chosen))
        rep.sample('%d of %d with lists starting with %s' % (m, len(members), prefix))
    elif kind == 'address':
        owner = POOL[case[1]]
        h = B.hash160(key_pub(owner))
        for net in NETNAMES:
            inp = AddressInput.create(TXID, 0, Address(h, NETS[net]))
            for n in (0, 1, 2):
                for chosen in itertools.product(POOL, repeat=n):
                    judge(rep, inp, p2pkh(h), 1, [key_pub(owner)], list(chosen), 'address of %s with %s' % (owner, chosen))
        judge(rep, inp, p2pkh(h), 1, [key_pub(owner)], [owner] * 3, 'address with 3 keys')
    elif kind == 'near':                     # addresses whose hash differs from the one of the key in a single bit, or in order
        owner = POOL[case[1]]
        h = B.hash160(key_pub(owner))
        variants = [h[:p] + bytes([h[p] ^ 1 << b]) + h[p + 1:] for p in range(20) for b in range(8)]
        variants += [h[::-1], h[1:] + h[:1], h[-1:] + h[:-1], b'\0' * 20, h[:10] + b'\0' * 10, b'\0' * 10 + h[10:], B.hash160(h), B.hash160(key_pub(owner)[1:])]
        for v in variants:
            for net in NETNAMES:
                inp = AddressInput.create(TXID, 0, Address(v, NETS[net]))
                judge(rep, inp, p2pkh(v), 1, [], [owner], 'address %s with %s' % (v.hex(), owner))
                if v in variants[::16]: judge(rep, inp, p2pkh(v), 1, [], [owner] * 2, 'address %s with %s' % (v.hex(), owner))
    elif kind == 'nearkeys':                 # keys that differ in sign or in one position of the list of members
        a = POOL[case[1]]
        neg = (N - a[0],) + a[1:]
        other = (a[0], not a[1], a[2])
        for members in ([neg], [neg, Bk], [Bk, neg], [other], [other, Bk], [D, neg, other], [neg, other, D]):
            pubs = [key_pub(s) for s in members]
            for m in range(1, len(members) + 1):
                redeem = multisig(m, pubs)
                inp = MultisigInput.create(TXID, 0, [PublicKey.from_bytes(p) for p in pubs], m)
                for n in range(0, 4):
                    for chosen in itertools.product([a, neg, other, Bk, D], repeat=n):
                        judge(rep, inp, p2sh(redeem), m, pubs, list(chosen), '%d of %s with %s' % (m, members, chosen))
    elif kind == 'secret':                   # keys of every size, and the secrets next to them
        v = case[1]
        k = (v, v.bit_length() % 3 != 0, 'livenet')
        near = [k] + [(x, k[1], 'livenet') for x in dict.fromkeys((v - 1, v + 1, N - v, v >> 8, v << 8, v ^ 1 << 248, int.from_bytes(v.to_bytes(32, 'big')[::-1], 'big'))) if 0 < x < N and x != v]
        near.append((v, not k[1], 'livenet'))
        pub = key_pub(k)
        inp = AddressInput.create(TXID, 0, Address(B.hash160(pub), NETS['livenet']))
        for s in near: judge(rep, inp, p2pkh(B.hash160(pub)), 1, [pub], [s], 'address of %s with %s' % (k, s))
        members = [key_pub(Bk), pub]
        redeem = multisig(2, members)
        inp = MultisigInput.create(TXID, 0, [PublicKey.from_bytes(p) for p in members], 2)
        for s in near: judge(rep, inp, p2sh(redeem), 2, members, [s, Bk], '2 of %s with %s' % ((Bk, k), s))
    elif kind == 'large':
        _, n, m, part = case
        specs = [(200 + i * 8 % 17, True, NETNAMES[i % 2]) for i in range(n)]       # neither ascending nor descending
        pubs = [key_pub(s) for s in specs]
        redeem = multisig(m, pubs)
        inp = MultisigInput.create(TXID, 0, [PublicKey.from_bytes(p) for p in pubs], m)
        for i, chosen in enumerate(itertools.combinations(specs, m)):
            chosen = list(chosen)
            if i % 2: chosen.reverse()
            if i % 8 == part:
                judge(rep, inp, p2sh(redeem), m, pubs, chosen, '%d of %d with %s' % (m, n, chosen))
        if part: return
        judge(rep, inp, p2sh(redeem), m, pubs, specs[:m - 1] + [A], '%d of %d with an outsider last' % (m, n))
        judge(rep, inp, p2sh(redeem), m, pubs, [A] + specs[:m - 1], '%d of %d with an outsider first' % (m, n))
        judge(rep, inp, p2sh(redeem), m, pubs, specs[:m - 1] + [specs[0]], '%d of %d with a repetition' % (m, n))
        judge(rep, inp, p2sh(redeem), m, pubs, specs[:m - 1], '%d of %d with too few' % (m, n))
        for k in {0, 1, m - 2, m + 2, n, n + 1}:            # any other number of keys, members and strangers
            if k < 0 or k == m: continue
            judge(rep, inp, p2sh(redeem), m, pubs, (specs + [A, Bk])[:k], '%d of %d with %d keys' % (m, n, k))
            judge(rep, inp, p2sh(redeem), m, pubs, ([D] + specs)[:k], '%d of %d with a stranger and %d keys' % (m, n, k))
            judge(rep, inp, p2sh(redeem), m, pubs, [specs[0]] * k, '%d of %d with %d times the first' % (m, n, k))
        if m < n: judge(rep, inp, p2sh(redeem), m, pubs, specs[:m + 1], '%d of %d with too many' % (m, n))

"""C07: BIP32 derivation."""
from ..common import *
from ..ref import bip32

ID = 'C07'
RULE = ('State: a node of the derivation tree (reached by a path from a seed or an imported extended key). Breadth-first over the path '
        'alphabet; every node of the real tree, private and public, is compared field by field with an independent BIP32, public and private '
        'derivation must commute, hardened public derivation must be refused, and the parent must be untouched.')
BOUNDS = {
    'quick': '5 roots (2 seeds, a testnet import, a deep import, a public import); alphabet: 7 plain indexes (0, 1, 2^31-1, 2^31, 2^31+1, '
             '2^32-1, leading-zero children) and 3 with hardened = True, depth 2; alphabet {0, 2^31} to depth 5; 12 imported roots with unusual depth, index and parent, depth 1; refused indexes and seeds; index, depth, chain code, secret, parent and seed over all their bit lengths, one derivation each',
    'thorough': 'depth 3 with the full alphabet for 2 roots, alphabet {0, 1, 2^31} to depth 5, 400 sibling indexes',
}
H = 2 ** 31
ALPHA = [(0, False), (1, False), (H - 1, False), (H, False), (H + 1, False), (2 ** 32 - 1, False), (277, False),
         (0, True), (H - 1, True), (167, True), (H + 324, False), (H + 2, True)]
SEED = bytes(range(32))
ZEROS = [81, 277, 320, 337, 344, 348, 456, 484, H + 167, H + 324, H + 325, H + 400, H + 212, H + 92]

ODD = [(77, 0, 0, 1, 'livenet'), (78, 0, 5, 0, 'testnet'), (79, 0, H, 2 ** 32 - 1, 'livenet'), (80, 1, 0, 0, 'livenet'), (81, 1, H + 1, 0, 'testnet'), (82, 7, 0, 0, 'livenet'),
       (83, 253, 0, 9, 'livenet'), (84, 254, 3, 2 ** 31, 'testnet'), (85, 0, 2 ** 32 - 1, 0, 'testnet'), (86, 128, 127, 255, 'livenet'), (N - 87, 127, 128, 256, 'testnet'), (88, 0, 0, 0, 'testnet')]


def root(i):
    """(reference node, implementation object)"""
    if i == 0: return bip32.master(SEED), HDPrivateKey.from_seed(SEED)
    if i == 1: return bip32.master(b'\xff' * 64), HDPrivateKey.from_seed(b'\xff' * 64)
    if i == 2:
        n = bip32.master(patterned(33, 1), 'testnet')
        return n, HDPrivateKey.from_string(n.text())
    if i == 3:
        n = bip32.Node(5, None, b'\0' * 31 + b'\1', 200, 2 ** 32 - 1, b'\0\0\0\1', 'testnet')
        return n, HDPrivateKey(PrivateKey(5, 'testnet'), b'\0' * 31 + b'\1', 200, 2 ** 32 - 1, 1, networks.testnet)
    if i == 4:
        n = bip32.Node(N - 1, None, b'\xff' * 32, 252, H, b'\xff' * 4, 'livenet')
        return n, HDPrivateKey.from_string(n.text())
    if i == 5:
        n = bip32.Node(255, None, patterned(32, 8), 0, 0, b'\0' * 4, 'livenet')      # 31 leading zero bytes
        return n, HDPrivateKey(PrivateKey(255), patterned(32, 8))
    if 6 <= i < 6 + len(ODD):                  # metadata that no derivation gives, but imports may have
        secret, depth, index, parent, net = ODD[i - 6]
        n = bip32.Node(secret, None, patterned(32, 9 + i), depth, index, parent.to_bytes(4, 'big'), net)
        if i % 2: return n, HDPrivateKey.from_string(n.text())
        return n, HDPrivateKey(PrivateKey(secret, net), patterned(32, 9 + i), depth, index, parent, NETS[net])
    raise ValueError(i)


def fields(k):
    key = k.privkey if hasattr(k, 'privkey') else k.pubkey
    return (key, bytes(k.chain), k.depth, k.index, k.parent, k.network, k.fingerprint)


def check_priv(rep, k, ref, what):
    rep.check(type(k) is HDPrivateKey, '%s: is a %s', what, type(k))
    pk = k.to_private_key()
    got = (pk.secret, pk.network.name, bool(pk.compressed), bytes(k.chain), k.depth, k.index, k.parent, k.network.name, k.fingerprint)
    want = (ref.priv, ref.net, True, ref.chain, ref.depth, ref.index, int.from_bytes(ref.parent, 'big'), ref.net, int.from_bytes(ref.fingerprint, 'big'))
    rep.equal(got, want, what)
    if ref.depth < 256: rep.equal(k.to_string(), ref.text(), what + ' text')


def check_pub(rep, k, ref, what):
    rep.check(type(k) is HDPublicKey, '%s: is a %s', what, type(k))
    pk = k.to_public_key()
    got = (tuple(pk.pair), pk.network.name, bool(pk.compressed), bytes(k.chain), k.depth, k.index, k.parent, k.network.name, k.fingerprint)
    want = (ref.point, ref.net, True, ref.chain, ref.depth, ref.index, int.from_bytes(ref.parent, 'big'), ref.net, int.from_bytes(ref.fingerprint, 'big'))
    rep.equal(got, want, what)
    if ref.depth < 256: rep.equal(k.to_string(), ref.neuter().text(), what + ' text')


def norm(step): return step[0] + H if step[1] and step[0] < H else step[0]


def expand(rep, k, ref, step, path, public=None):
    """One transition of the real tree, checked. Returns (child, child ref, public child or None)."""
    i = norm(step)
    before = fields(k)
    what = 'root %s path %s' % (path[0], path[1:] + (step,))
    if step[1]: child = k.derive(step[0], hardened=True)
    else: child = k.derive(step[0])
    rep.step()
    cref = ref.child(i)
    check_priv(rep, child, cref, what)
    rep.check(fields(k) == before, '%s: derive() changed its parent', what)
    pubk = k.to_hd_public_key()
    check_pub(rep, pubk, ref.neuter(), what + ' (parent neutered)')
    rep.check(pubk == HDPublicKey.from_hd_private_key(k), '%s: from_hd_private_key differs', what)
    cpub = child.to_hd_public_key()
    check_pub(rep, cpub, cref.neuter(), what + ' (neutered)')
    pbefore = fields(pubk)
    if i < H:
        rep.step()
        direct = pubk.derive(step[0])
        check_pub(rep, direct, cref.neuter(), what + ' (public derivation)')
        rep.check(direct == cpub and hash(direct) == hash(cpub), '%s: public and private derivation do not commute', what)
        if public is not None:
            check_pub(rep, public.derive(step[0]), cref.neuter(), what + ' (all-public path)')
        rep.outcome('normal child')
    else:
        for kw in ((({'hardened': True}), {}) if not step[1] else ({'hardened': True},)):
            refused(rep, (ValueError, BitforgeError), what + ' public hardened', pubk.derive, step[0], **kw)
        rep.outcome('hardened child')
    rep.check(fields(pubk) == pbefore, '%s: public derive() changed its parent', what)
    rep.state(path[0], path[1:], step)
    return child, cref


def cases(tier):
    t = tier == 'thorough'
    for r in range(6):
        yield ('root', r)
        for s in ALPHA: yield ('tree', r, (s,), 2)
    for r in range(6, 6 + len(ODD)):
        yield ('root', r)
        yield ('tree', r, (), 1)
    for a in ((0, False), (H, False), (0, True)):
        for b in ((0, False), (H, False)):
            for c in ((0, False), (H, False)): yield ('deep', 0, (a, b, c), 5)
    for z in ZEROS: yield ('zero', z)
    yield ('refused',)
    for r in range(4): yield ('flags', r)
    for part in range(32):
        for field in ('index', 'depth', 'chain', 'secret', 'parent', 'seed'): yield ('field', field, part, t)
    if t:
        for r in (0, 2):
            for s in ALPHA:
                for s2 in ALPHA: yield ('tree', r, (s, s2), 3)
        for i in range(0, 400, 5): yield ('siblings', i)
        for path in itertools.product(((0, False), (1, False), (H, False)), repeat=3): yield ('deep', 2, path, 5)


def run(case, rep):
    kind = case[0]
    if kind == 'root':
        ref, k = root(case[1])
        check_priv(rep, k, ref, 'root %d' % case[1])
        check_pub(rep, k.to_hd_public_key(), ref.neuter(), 'root %d neutered' % case[1])
        rep.state(case); rep.step()
        rep.outcome('root')
        rep.sample('root %d: %s' % (case[1], ref.text()))
    elif kind in ('tree', 'deep'):
        _, r, prefix, depth = case
        ref, k = root(r)
        path = (r,)
        for s in prefix:
            k, ref = expand(rep, k, ref, s, path)
            path += (s,)
        alpha = ALPHA if kind == 'tree' else [(0, False), (H, False)]
        if kind == 'tree' and depth == 2 and r > 1: alpha = ALPHA[:1] + ALPHA[3:4] + ALPHA[5:8]
        def walk(k, ref, path, left):
            if not left: return
            for s in alpha:
                c, cr = expand(rep, k, ref, s, path)
                walk(c, cr, path + (s,), left - 1)
        walk(k, ref, path, depth - len(prefix))
    elif kind == 'zero':
        ref, k = root(0)
        i = case[1]
        c, cr = expand(rep, k, ref, (i, False), (0,))
        for s in ((0, False), (H, False), (1, True)):
            g, gr = expand(rep, c, cr, s, (0, (i, False)))
        c2 = HDPrivateKey.from_string(c.to_string())
        expand(rep, c2, cr, (H + 5, False), (0, (i, 'reimported')))
        expand(rep, c2, cr, (5, False), (0, (i, 'reimported')), HDPublicKey.from_string(cr.neuter().text()))
        rep.outcome('leading zeros')
    elif kind == 'flags':                     # the flag set on an index that is hardened already, or is the last or first of its range
        ref, k = root(case[1])
        for i in (0, 1, H - 2, H - 1, H, H + 1, H + 2, 2 ** 32 - 2, 2 ** 32 - 1):
            for hard in (False, True): expand(rep, k, ref, (i, hard), (case[1],))
    elif kind == 'field':                     # every field of the parent, and the index, over its whole range of sizes
        _, field, part, t = case
        secret, chain, depth, parent, net = int.from_bytes(patterned(32, 90), 'big'), patterned(32, 91), 3, 0x01020304, 'livenet'
        vals = {'index': bitints(32) + list(range(30)), 'depth': list(range(255)), 'chain': bytelike(chain) if t else [chain[:i] + b'\0' * (32 - i) for i in range(32)] + [b'\0' * i + chain[i:] for i in range(33)] + [bytes([v]) + chain[1:] for v in range(0, 256, 15)],
                'secret': [v for v in bitints(256, 1, N - 1) if t or v & (v - 1) == 0 or v & (v + 1) == 0], 'parent': bitints(32) if t else [2 ** k for k in range(32)], 'seed': bytelike(patterned(32, 92)) + bytelike(patterned(64, 93))}[field]
        for at, v in enumerate(vals):
            if at % 32 != part: continue
            i = (at % 2) * H + at
            if field == 'seed':
                check_priv(rep, HDPrivateKey.from_seed(v), bip32.master(v), 'seed %s' % v.hex())
                rep.step(); rep.state('seed', v)
                continue
            if field == 'index': i = v
            elif field == 'depth': depth = v
            elif field == 'chain': chain = v
            elif field == 'secret': secret = v
            else: parent = v
            if at % 3 == 2: net = 'testnet'
            ref = bip32.Node(secret, None, chain, depth, 7, parent.to_bytes(4, 'big'), net)
            what = '%s %s: child %d' % (field, v, i)
            if field != 'index' and at % 4 or field == 'index' and i < H:                        # publicly
                pub_ = HDPublicKey(PublicKey(ref.point, net), chain, depth, 7, parent, NETS[net])
                check_pub(rep, pub_, ref, what + ' (parent)')
                j = i % H
                check_pub(rep, pub_.derive(j), ref.neuter().child(j), what + ' (public)')
                rep.step()
            k = HDPrivateKey(PrivateKey(secret, net), chain, depth, 7, parent, NETS[net])
            check_priv(rep, k, ref, what + ' (parent)')
            check_priv(rep, k.derive(i), ref.child(i), what)
            rep.state(field, v); rep.step()
            rep.outcome('child')
    elif kind == 'siblings':
        ref, k = root(1)
        for i in range(case[1], case[1] + 5):
            expand(rep, k, ref, (i, False), (1,))
            expand(rep, k, ref, (i, True), (1,))
    elif kind == 'refused':
        ref, k = root(0)
        p = k.to_hd_public_key()
        for i in (-1, -H, 2 ** 32, 2 ** 32 + 1, 2 ** 40, -2 ** 32):
            for hard in (False, True):
                refused(rep, Exception, 'derive(%d, %s)' % (i, hard), k.derive, i, hard)
                refused(rep, Exception, 'public derive(%d, %s)' % (i, hard), p.derive, i, hard)
                rep.state('bad', i, hard)
        for i in (0, 1, H - 1): refused(rep, (ValueError, BitforgeError), 'public hardened %d' % i, p.derive, i, True)
        for i in (H, H + 1, 2 ** 32 - 1):
            for hard in (False, True): refused(rep, (ValueError, BitforgeError), 'public hardened %d' % i, p.derive, i, hard)
        for n in range(0, 32): refused(rep, (ValueError, BitforgeError), 'seed of %d bytes' % n, HDPrivateKey.from_seed, patterned(n))
        for n in list(range(32, 130)) + [256, 1000]:
            s = patterned(n, n)
            check_priv(rep, HDPrivateKey.from_seed(s), bip32.master(s), 'seed of %d bytes' % n)
            rep.state('seed', n); rep.step()
        rep.outcome('refused')

"""C02: private keys through WIF, hexadecimal and binary."""
from ..common import *

ID = 'C02'
RULE = ('State: (secret, network, compression) or an import text/payload. Exports are compared with independently built standard '
        'forms, imports with an independent strict parser; conversion chains must never leave the starting state.')
BOUNDS = {
    'quick': 'secrets 1..40, order-40..order-1, 2^i-1, 2^i, 2^i+1 for every i < 256, zero/marker-byte patterns, every value of the first and last byte, x 2 networks x 2 '
             'compressions x 3 forms; all conversion chains of length <= 4; WIF payloads: 256 prefixes x lengths 0..40 x suffix classes, '
             'all 256 suffixes; out-of-range secrets and 2400 byte strings around the order through every entry point; every single edit of 4 WIFs and 2 hex texts',
    'thorough': 'quick + secrets 1..5000 and order-5000.., every pair of substitutions at 12 positions of a WIF, 256 prefixes x '
                '256 suffixes x lengths 33, 34',
}


def secrets(tier):
    s = list(range(1, 41)) + [N - i for i in range(1, 41)]
    for i in range(2, 256):
        s += [2 ** i - 1, 2 ** i, 2 ** i + 1]
    for z in range(1, 32):      # z leading zero bytes, trailing zero bytes, and trailing 01 (the compression marker's value)
        body = patterned(32 - z, z)
        s += [int.from_bytes(b'\0' * z + body, 'big'), int.from_bytes(b'\1' + body[1:] + b'\0' * z, 'big') % N,
              int.from_bytes(b'\x7f' + patterned(30, z) + b'\1', 'big')]
    s += [int.from_bytes(b, 'big') for b in bytelike(patterned(32, 78))]
    if tier == 'thorough':
        s += list(range(41, 5001)) + [N - i for i in range(41, 5001)]
    return sorted({x for x in s if 0 < x < N})


def wif(secret, net, comp): return B.b58cenc(bytes([WIF[net]]) + secret.to_bytes(32, 'big') + (b'\1' if comp else b''))


def view(k): return (k.secret, k.network.name, bool(k.compressed))


def ref_wif(text):
    p = B.b58cdec(text)
    if p is None or len(p) not in (33, 34) or (len(p) == 34 and p[33] != 1): return None
    net = {128: 'livenet', 239: 'testnet'}.get(p[0])
    s = int.from_bytes(p[1:33], 'big')
    return (s, net, len(p) == 34) if net and 0 < s < N else None


def check_wif(text, rep):
    rep.state('wif', text)
    agree(rep, 'from_wif %s' % ascii(text), ref_wif(text), PrivateKey.from_wif, (text,), PrivateKey.Error, view)


def cases(tier):
    all_secrets = secrets(tier)
    for i in range(0, len(all_secrets), 16): yield ('secrets', tuple(all_secrets[i:i + 16]))
    yield ('chains',)
    yield ('range',)
    for part in range(8): yield ('near', part)
    for p in range(256): yield ('prefix', p)
    for i in range(4): yield ('edits', i)
    yield ('hexedits',)
    for n in range(0, 81): yield ('lengths', n)
    if tier == 'thorough':
        for i in range(0, 48, 4): yield ('pairs', i)
        for p in range(256): yield ('suffix', p)


KEYS = [(1, 'livenet', True), (N - 1, 'livenet', False), (int.from_bytes(patterned(32, 77), 'big'), 'testnet', True),
        (255, 'testnet', False)]


def run(case, rep):
    kind = case[0]
    if kind == 'secrets':
        for s in case[1]:
            raw = s.to_bytes(32, 'big')
            for net in NETNAMES:
                for comp in (True, False):
                    want = (s, net, comp)
                    rep.state(want)
                    k = PrivateKey(s, NETS[net], comp)
                    rep.equal(view(k), want, 'PrivateKey(...)')
                    rep.equal(view(PrivateKey(s, net, comp)), want, 'PrivateKey with a network name')
                    rep.equal(k.to_wif(), wif(*want), 'to_wif %s' % (want,))
                    rep.equal(bytes(k.to_bytes()), raw, 'to_bytes %s' % (want,))
                    rep.equal(k.to_hex(), raw.hex(), 'to_hex %s' % (want,))
                    for name, back in (('wif', PrivateKey.from_wif(k.to_wif())), ('bytes', PrivateKey.from_bytes(raw, NETS[net], comp)),
                                       ('hex', PrivateKey.from_hex(raw.hex(), net, comp)), ('bytes/name', PrivateKey.from_bytes(raw, net, comp))):
                        rep.equal(view(back), want, 'from_%s %s' % (name, want))
                        rep.check(back == k and hash(back) == hash(k), 'from_%s %s is not equal to the original', name, want)
                    rep.step(8)
            rep.equal(view(PrivateKey.from_bytes(raw)), (s, 'livenet', True), 'defaults of from_bytes')
            rep.equal(view(PrivateKey.from_hex(raw.hex())), (s, 'livenet', True), 'defaults of from_hex')
        rep.outcome('round trip', 4 * len(case[1]))
        rep.sample('%d -> %s' % (case[1][0], wif(case[1][0], 'livenet', True)))
    elif kind == 'chains':
        steps = {'w': lambda k: PrivateKey.from_wif(k.to_wif()),
                 'h': lambda k: PrivateKey.from_hex(k.to_hex(), k.network, k.compressed),
                 'b': lambda k: PrivateKey.from_bytes(k.to_bytes(), k.network.name, k.compressed),
                 'c': lambda k: PrivateKey(k.secret, k.network, k.compressed)}
        for want in KEYS:
            for n in range(5):
                for chain in itertools.product('whbc', repeat=n):
                    k = PrivateKey(want[0], NETS[want[1]], want[2])
                    for c in chain:
                        k = steps[c](k)
                        rep.step()
                        rep.equal(view(k), want, 'chain %s' % (chain,))
                    rep.state(want, chain)
                    rep.outcome('chain')
    elif kind == 'range':
        bad = [0, N, N + 1, N + 2 ** 32, 2 ** 256 - 1]
        for s in bad + [-1, -N, 2 ** 256, 2 ** 256 + 1, 2 ** 300]:
            for net in NETNAMES:
                for comp in (True, False):
                    refused(rep, PrivateKey.Error, 'PrivateKey(%d)' % s, PrivateKey, s, net, comp)
                    rep.state('bad', s, net, comp)
        for s in bad:
            raw = s.to_bytes(32, 'big')
            for net in NETNAMES:
                for comp in (True, False):
                    refused(rep, PrivateKey.Error, 'from_bytes(%d)' % s, PrivateKey.from_bytes, raw, net, comp)
                    refused(rep, PrivateKey.Error, 'from_hex(%d)' % s, PrivateKey.from_hex, raw.hex(), net, comp)
                    refused(rep, PrivateKey.Error, 'from_wif(%d)' % s, PrivateKey.from_wif, wif(s, net, comp))
        for net in ('mainnet', 'Livenet', '', 'livenet ', None, 0, 128, 8333):
            for s in (1, N - 1):
                refused(rep, PrivateKey.Error, 'PrivateKey(network=%r)' % (net,), PrivateKey, s, net)
                refused(rep, PrivateKey.Error, 'from_bytes(network=%r)' % (net,), PrivateKey.from_bytes, s.to_bytes(32, 'big'), net)
                refused(rep, PrivateKey.Error, 'from_hex(network=%r)' % (net,), PrivateKey.from_hex, '%064x' % s, net)
    elif kind == 'near':         # byte strings that agree with the order, its neighbours or its half up to some byte
        for i, raw in enumerate(bytelike(N.to_bytes(32, 'big')) + bytelike((N // 2).to_bytes(32, 'big')) + [(N + d).to_bytes(32, 'big') for k in range(129) for d in (2 ** k, -2 ** k)]):
            if i % 8 != case[1]: continue
            v = int.from_bytes(raw, 'big')
            good = 0 < v < N
            rep.state('near', raw)
            for net in NETNAMES:
                for comp in (True, False):
                    want = (v, net, comp) if good else None
                    agree(rep, 'PrivateKey(%x)' % v, want, PrivateKey, (v, net, comp), PrivateKey.Error, view)
                    agree(rep, 'from_bytes(%x)' % v, want, PrivateKey.from_bytes, (raw, net, comp), PrivateKey.Error, view)
                    agree(rep, 'from_hex(%x)' % v, want, PrivateKey.from_hex, (raw.hex(), net, comp), PrivateKey.Error, view)
                    agree(rep, 'from_wif(%x)' % v, want, PrivateKey.from_wif, (wif(v, net, comp),), PrivateKey.Error, view)
    elif kind == 'prefix':
        p = case[1]
        for s in (1, N - 1, N, 0):
            raw = s.to_bytes(32, 'big')
            for n in range(0, 41):
                body = (raw + b'\1' * 8)[:n]
                check_wif(B.b58cenc(bytes([p]) + body), rep)
            check_wif(B.b58cenc(bytes([p]) + raw + b'\0'), rep)
            check_wif(B.b58cenc(bytes([128]) + raw + bytes([p])), rep)
            check_wif(B.b58cenc(bytes([239]) + raw + bytes([p])), rep)
            check_wif(B.b58cenc(bytes([128]) + raw + bytes([1, p])), rep)
            check_wif(B.b58cenc(bytes([p, 128]) + raw), rep)
    elif kind == 'suffix':
        for q in range(256):
            for s in (2, N - 2):
                check_wif(B.b58cenc(bytes([case[1]]) + s.to_bytes(32, 'big') + bytes([q])), rep)
                check_wif(B.b58cenc(bytes([case[1]]) + s.to_bytes(31, 'big')[:31] + bytes([q])), rep) if s == 2 else None
    elif kind == 'lengths':
        n = case[1]
        for fill in (b'\0' * n, b'\1' * n, b'\xff' * n, patterned(n, n)):
            for p in (b'', b'\x80', b'\xef'):
                check_wif(B.b58cenc(p + fill), rep)
            s = int.from_bytes(fill, 'big')
            want = (s, 'livenet', True) if n == 32 and 0 < s < N else None
            rep.state('len', fill)
            agree(rep, 'from_bytes of %d bytes' % n, want, PrivateKey.from_bytes, (fill,), PrivateKey.Error, view)
            agree(rep, 'from_hex of %d bytes' % n, want, PrivateKey.from_hex, (fill.hex(),), PrivateKey.Error, view)
            if n: refused(rep, PrivateKey.Error, 'from_hex of odd length', PrivateKey.from_hex, fill.hex()[1:])
    elif kind == 'edits':
        text = wif(*KEYS[case[1]])
        check_wif(text, rep)
        for t in itertools.chain(edits(text, list(B.ALPHABET) + ['0', 'O', 'I', 'l', ' ', '\n', '\u00e9']), decorated(text)): check_wif(t, rep)
        rep.sample('all edits of ' + text)
    elif kind == 'hexedits':
        for s in (1, KEYS[2][0]):
            text = '%064x' % s
            for t in itertools.chain(edits(text, PRINTABLE + '\n\t\0\x7f\u00e9\u0661\uff11'), decorated(text), decorated('%x' % s)):
                ok = len(t) == 64 and all(c in '0123456789abcdefABCDEF' for c in t)
                v = int(t, 16) if ok else 0
                rep.state('hex', t)
                agree(rep, 'from_hex %s' % ascii(t), (v, 'livenet', True) if 0 < v < N else None, PrivateKey.from_hex, (t,),
                      PrivateKey.Error, view)
    elif kind == 'pairs':
        text = wif(*KEYS[0])
        i = case[1]
        for j in range(i + 1, len(text)):
            for c in B.ALPHABET:
                for d in B.ALPHABET:
                    check_wif(text[:i] + c + text[i + 1:j] + d + text[j + 1:], rep)

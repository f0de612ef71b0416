"""C04: public keys."""
from ..common import *

ID = 'C04'
RULE = ('State: a secret with network and compression, or a binary/hex encoding. Derivation is compared with an independent '
        'secp256k1 (Jacobian), reading with an independent strict SEC reader; whatever is read must be written back unchanged.')
BOUNDS = {
    'quick': 'secrets 1..64, order-1..order-24, 2^i for all i, 2^i-1 and 2^i+1 for i % 8 in (0, 7), secrets whose x or y has 1 or 2 '
             'leading zero bytes; x = 0..400, p-200..p+200, 2^256-100.. with both prefixes; all points with y = 0..400 and at the top of the range where y + p fits; '
             'uncompressed: valid points, their negations, off-by-one, x+p and y variants; '
             'all 256 prefixes x lengths 0..70 x 4 bodies; every single edit of 2 hex keys; 545 pairs that miss the curve equation by one bit or a common modulus',
    'thorough': 'quick + secrets up to 2000, all 2^i +- 1, x and y = 0..20000, every single-byte value at every position of a '
                'compressed and an uncompressed key',
}
P = ec.P
ZERO = [153, 246, 886, 122, 130, 533, 44629, 58165, 41192, 394851]


def secrets(tier):
    s = list(range(1, 65)) + [N - i for i in range(1, 25)] + ZERO + [N - k for k in ZERO] + [N // 2, N // 2 + 1, N // 3, N - N // 3]
    for i in range(1, 256):
        s.append(2 ** i)
        if tier == 'thorough' or i % 8 in (0, 7): s += [2 ** i - 1, 2 ** i + 1]
    if tier == 'thorough': s += list(range(65, 2001))
    return sorted({x for x in s if 0 < x < N})


def view(k): return (tuple(k.pair), bool(k.compressed))


def check_bytes(b, rep):
    rep.state(b)
    want = ec.sec_parse(b)
    got = agree(rep, 'from_bytes %s' % b.hex(), want, PublicKey.from_bytes, (b,), PublicKey.Error, view)
    if want is not None:
        rep.equal(bytes(got.to_bytes()), b, 'written back')
        rep.equal(got.to_hex(), b.hex(), 'written back as hex')
    return got


def cases(tier):
    ss = secrets(tier)
    for i in range(0, len(ss), 4): yield ('secrets', tuple(ss[i:i + 4]))
    xs = list(range(0, 20001 if tier == 'thorough' else 401)) + list(range(P - 200, P + 201)) + list(range(2 ** 256 - 100, 2 ** 256))
    for i in range(0, len(xs), 20): yield ('xs', tuple(xs[i:i + 20]))
    ys = list(range(0, 20001 if tier == 'thorough' else 401)) + [2 ** 32 + 976 - i for i in range(20)]
    for i in range(0, len(ys), 40): yield ('ys', tuple(ys[i:i + 40]))
    for p in range(256): yield ('prefix', p)
    for k in (1, 2, 3, 153, 122, 44629, N - 1): yield ('uncompressed', k)
    for i in range(2): yield ('hexedits', i)
    yield ('short',)
    yield ('constructor',)
    for i in range(0, len(ec.GAPS), 20): yield ('near', i)
    if tier == 'thorough':
        for comp in (True, False):
            for pos in range(33 if comp else 65): yield ('bytes', comp, pos)


def run(case, rep):
    kind = case[0]
    if kind == 'secrets':
        for s in case[1]:
            q = ec.mul_g(s)
            for net, comp in ((('livenet', True), ('testnet', False)) if s % 2 else (('testnet', True), ('livenet', False))):
                k = PrivateKey(s, net, comp)
                for what, pk in (('to_public_key', k.to_public_key()), ('from_private_key', PublicKey.from_private_key(k))):
                    rep.step()
                    rep.equal((view(pk), pk.network.name), ((q, comp), net), '%s of %d' % (what, s))
                raw = ec.sec(q, comp)
                rep.state('secret', s, net, comp)
                rep.equal(bytes(pk.to_bytes()), raw, 'to_bytes of %d' % s)
                rep.equal(pk.to_hex(), raw.hex(), 'to_hex of %d' % s)
                for back in (PublicKey.from_bytes(raw, NETS[net]), PublicKey.from_hex(raw.hex(), net)):
                    rep.step()
                    rep.equal((view(back), back.network.name), ((q, comp), net), 'read back %d' % s)
                    rep.check(back == pk and hash(back) == hash(pk), 'the key of %d read back is not equal', s)
            for comp in (True, False): check_bytes(ec.sec(q, comp), rep)
        rep.outcome('derived', 2 * len(case[1]))
        rep.sample('%d -> %s' % (case[1][0], ec.sec(ec.mul_g(case[1][0])).hex()))
    elif kind == 'xs':
        for x in case[1]:
            for prefix in (2, 3):
                check_bytes(bytes([prefix]) + x.to_bytes(32, 'big'), rep)
            y = ec.lift(x % P)
            for yy in ([y, P - y, y + 1, (P - y + 1) % P] if y is not None else [0, 1]):
                check_bytes(b'\4' + x.to_bytes(32, 'big') + yy.to_bytes(32, 'big'), rep)
    elif kind == 'ys':          # points whose second coordinate plus the prime still fits 32 bytes
        for y in case[1]:
            for x in ec.lifts_y(y):
              rep.outcome('small y')
              for prefix in (2, 3): check_bytes(bytes([prefix]) + x.to_bytes(32, 'big'), rep)
              for yy in (y, P - y, y + P, y + 1, (y + 1) % P + P):
                if yy < 2 ** 256:
                    check_bytes(b'\4' + x.to_bytes(32, 'big') + yy.to_bytes(32, 'big'), rep)
                    agree(rep, 'PublicKey(%r)' % ((x, yy),), ((x, yy), False) if ec.on_curve(x, yy) else None, PublicKey, ((x, yy), 'livenet', False), PublicKey.Error, view)
    elif kind == 'short':       # both coordinates have leading zeros
        for x, y in ec.short_points():
            for yy in (y, P - y):
                for comp in (True, False):
                    raw = ec.sec((x, yy), comp)
                    check_bytes(raw, rep)
                    pk = PublicKey((x, yy), 'testnet', comp)
                    rep.equal((bytes(pk.to_bytes()), pk.to_address().to_string()), (raw, B.b58cenc(b'\x6f' + B.hash160(raw))), 'PublicKey%r' % ((x, yy),))
                    rep.state(x, yy, comp)
    elif kind == 'uncompressed':
        x, y = ec.mul_g(case[1])
        for xx in {x, (x + 1) % P, P - x, 0, P, P - 1, 2 ** 256 - 1, y}:
            for yy in {y, P - y, (y + 1) % P, (y - 1) % P, 0, P, 2 ** 256 - 1, x, y ^ 1, y ^ (1 << 255)}:
                check_bytes(b'\4' + xx.to_bytes(32, 'big') + yy.to_bytes(32, 'big'), rep)
                for prefix in (2, 3, 6, 7, 0, 5): check_bytes(bytes([prefix]) + xx.to_bytes(32, 'big') + yy.to_bytes(32, 'big'), rep)
    elif kind == 'prefix':
        x, y = ec.mul_g(3)
        for body in (x.to_bytes(32, 'big') + y.to_bytes(32, 'big') + b'\0' * 8, b'\0' * 72, b'\xff' * 72,
                     b'\0' * 31 + b'\1' + ec.lift(1).to_bytes(32, 'big') + b'\0' * 8):
            for n in range(0, 71):
                check_bytes((bytes([case[1]]) + body)[:n], rep)
    elif kind == 'bytes':
        base = bytearray(pub(7, case[1]))
        for v in range(256):
            b = bytearray(base)
            b[case[2]] = v
            check_bytes(bytes(b), rep)
    elif kind == 'hexedits':
        raw = pub(5, case[1] == 0)
        good = '0123456789abcdefABCDEF'
        for t in itertools.chain(edits(raw.hex(), '0123456789abcdefAFgGxX \n\u00e9\u0661', transpose=False), decorated(raw.hex())):
            ok = len(t) % 2 == 0 and all(c in good for c in t)
            rep.state('hex', t)
            agree(rep, 'from_hex %s' % ascii(t), ec.sec_parse(bytes.fromhex(t)) if ok else None, PublicKey.from_hex, (t,), PublicKey.Error, view)
    elif kind == 'near':          # pairs that miss the curve by a single bit, or by a multiple of a common modulus
        for d in ec.GAPS[case[1]:case[1] + 20]:
            x, y = ec.near(d)
            for yy in (y, P - y):
                rep.state(x, yy)
                for comp in (True, False): refused(rep, PublicKey.Error, 'PublicKey%r' % ((x, yy),), PublicKey, (x, yy), 'livenet', comp)
                check_bytes(b'\4' + x.to_bytes(32, 'big') + yy.to_bytes(32, 'big'), rep)
    elif kind == 'constructor':
        x, y = ec.mul_g(9)
        x1 = next(x for x in range(1, 50) if ec.lift(x) is not None)      # small enough for x + p to fit 32 bytes
        y1 = ec.lift(x1)
        for pair in ((x, y), (x, P - y), (x1, y1), (x1, P - y1)):
            for comp in (True, False):
                for net in NETNAMES:
                    pk = PublicKey(pair, net, comp)
                    rep.step()
                    rep.equal((view(pk), pk.network.name), ((pair, comp), net), 'PublicKey%r' % (pair,))
        for pair in ((x, y + 1), (x + P, y), (x, y + P), (x, -y), (x - P, y), (-x, y), (0, 0), (y, x), (x1 + P, y1), (x1, y1 - P),
                     (x1, -y1), (P, 0), (0, P), (x, 0), (x + 1, y)):
            for comp in (True, False):
                refused(rep, PublicKey.Error, 'PublicKey%r' % (pair,), PublicKey, pair, 'livenet', comp)
                rep.state(pair, comp)
        for net in ('mainnet', '', None, 0, 128):
            refused(rep, PublicKey.Error, 'network %r' % (net,), PublicKey, (x, y), net)
            refused(rep, PublicKey.Error, 'network %r' % (net,), PublicKey.from_bytes, pub(9), net)
            refused(rep, PublicKey.Error, 'network %r' % (net,), PublicKey.from_hex, pub(9).hex(), net)
        rep.outcome('constructor')

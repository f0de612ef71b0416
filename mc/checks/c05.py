"""C05: curve arithmetic, number theory and the ECDSA helpers."""
import hashlib
from ..common import *
from bitforge.utils import ecdsa as E, numbertheory as NT, ellipticcurve as EC

ID = 'C05'
RULE = ('State: a curve with points, scalars, nonces, digests and (r, s) pairs. Every element of the group of every small prime-order '
        'curve is explored against the group given by exhaustive tables; ECDSA helpers against the definitions evaluated in that '
        'group; number theory against its definition for every argument.')
BOUNDS = {
    'quick': 'every prime-order curve over F_p, 5 <= p <= 23: all point pairs, all scalars 0..2n+3; one curve per (p, n), n <= 13: all '
             '(key, digest, r, s); n <= 31: all (key, digest) signed, all (key, digest, nonce) recovered; inverses for all moduli <= '
             '150; square roots for all odd primes <= 500 and 6 large ones; RFC 6979 over 14 orders x 6 keys x 9 digests x 3 hashes; '
             'secp256k1: 6 keys x 9 digests; multiples, sums, keys, digests and signature numbers of every bit length (quick: in steps of 3 or 7), short r; sums of points of 4 shapes whose x differ by one of 800 gaps, on curves through them; 545 near misses each of the curve equation, of equal points and of valid signatures',
    'thorough': 'quick with p <= 43, all (key, digest, r, s) for every curve with n <= 17 and one per (p, n) with n <= 23, primes <= 3000, '
                'moduli <= 500',
}
ASSUMPTIONS = ['key recovery is claimed for signatures whose nonce point has x below the order (the helper tries only that candidate)']


def big_prime(p): return p
LARGE = [ec.P, 2 ** 255 - 19, 2 ** 224 - 2 ** 96 + 1, 65537, 12289, 40961, 2 ** 192 - 2 ** 64 - 1, 193, 257, 769]
ORDERS = [3, 5, 7, 11, 13, 127, 251, 257, 65537, 0x4000000000000000000020108A2E0CC0D99F8A5EF, 2 ** 127 - 1,
          6277101735386680763835789423176059013767194773182842284081, ec.N, 2 ** 521 - 1]


def curves(pmax): return list(ec.tiny_curves(pmax))


def one_per(pmax, nmax):
    seen = {}
    for c in curves(pmax):
        n = len(c.points)
        if n <= nmax: seen.setdefault((c.p, n), []).append(c)
    # prefer a curve with a, b both non-zero
    return [next((c for c in cs if c.a and c.b), cs[0]) for cs in seen.values()]


def cases(tier):
    t = tier == 'thorough'
    for p in range(3, 3000 if t else 501):
        if ec.is_prime(p) and p > 2: yield ('sqrt', p)
    for i in range(len(LARGE)): yield ('bigsqrt', i)
    for m in range(2, 501 if t else 151): yield ('inverse', m)
    for c in curves(43 if t else 23): yield ('group', c.p, c.a, c.b)
    for c in one_per(43 if t else 29, 40 if t else 23): yield ('sign', c.p, c.a, c.b)
    for c in one_per(23, 23 if t else 13):
        for d in range(1, len(c.points)): yield ('verify', c.p, c.a, c.b, d)
    if t:
        for c in curves(17):
            if len(c.points) <= 17: yield ('verify', c.p, c.a, c.b, 1)
    for i in range(len(ORDERS)): yield ('rfc6979', i)
    for d in (1, 2, 3, N - 1, N // 2, int.from_bytes(patterned(32, 3), 'big') % N): yield ('secp', d)


    for k in range(0, 256, 1 if t else 3): yield ('mul', k)
    for k in range(0, 257, 1 if t else 7): yield ('size', k)
    for i in range(0, len(ec.GAPS), 20): yield ('near', i, t)
    for part in range(8): yield ('level', part)
    for part in range(8): yield ('short r', part, 4096 if t else 1024)
    for lo in range(0, 256, 16): yield ('numbers', lo)


def digests(n):
    return [0, 1, n - 1, n, n + 1, (n // 2), 2 ** 255, 2 ** 256 - 1, int.from_bytes(patterned(32, 9), 'big')]


def pair(pt): return None if pt == EC.INFINITY else (pt.x(), pt.y())


def run(case, rep):
    kind = case[0]
    if kind == 'sqrt':
        p = case[1]
        squares = {}
        for x in range(p): squares.setdefault(x * x % p, x)
        for a in range(p):
            rep.state(p, a); rep.step(2)
            r = NT.modular_sqrt(a, p)
            if a in squares: rep.check(0 <= r < p and r * r % p == a, 'modular_sqrt(%d, %d) = %r', a, p, r)
            else: rep.check(r == 0, 'modular_sqrt(%d, %d) = %r of a non-residue', a, p, r)
            want = 0 if a == 0 else (1 if a in squares else -1)
            rep.equal(NT.legendre_symbol(a, p), want, 'legendre_symbol(%d, %d)' % (a, p))
        rep.outcome('sqrt', p)
    elif kind == 'bigsqrt':
        p = LARGE[case[1]]
        for base in list(range(0, 60)) + [p - 1, p - 2, p // 2, p // 3] + [int.from_bytes(patterned(70, i), 'big') % p for i in range(20)]:
            rep.state(p, base); rep.step()
            a = base * base % p
            r = NT.modular_sqrt(a, p)
            rep.check(r * r % p == a, 'modular_sqrt(%d^2, %d) = %r', base, p, r)
            rep.traces += 1
            e = pow(base, (p - 1) // 2, p)
            if e == p - 1: rep.equal(NT.modular_sqrt(base, p), 0, 'root of the non-residue %d' % base)
            if base % p:
                v = NT.inverse_mod(base, p)
                rep.check(0 < v < p and v * base % p == 1, 'inverse_mod(%d, %d) = %r', base, p, v)
        rep.outcome('big sqrt')
    elif kind == 'inverse':
        import math
        m = case[1]
        for a in range(-2 * m, 3 * m):
            if math.gcd(a, m) != 1: continue
            rep.state(m, a); rep.step(); rep.traces += 1
            v = NT.inverse_mod(a, m)
            rep.check(0 < v < m + (m == 1) and v * a % m == 1, 'inverse_mod(%d, %d) = %r', a, m, v)
        rep.outcome('inverse')
    elif kind == 'group':
        c = ec.Tiny(*case[1:])
        p, n = c.p, len(c.points)
        curve = EC.CurveFp(c.p, c.a, c.b)
        rep.equal((curve.p(), curve.a(), curve.b()), case[1:], 'curve parameters')
        on = set(c.points)
        for x in range(-1, p + 1):
            for y in range(-1, p + 1):
                rep.step()
                if 0 <= x < p and 0 <= y < p:
                    rep.equal(bool(curve.contains_point(x, y)), (x, y) in on, 'contains_point(%d, %d)' % (x, y))
        g = c.points[1]
        G = EC.Point(curve, g[0], g[1], n)
        for x in range(-1, p + 2):
            for y in range(-1, p + 2):
                rep.step()
                rep.equal(bool(E.is_public_pair_valid(G, (x, y))), (x, y) in on, 'is_public_pair_valid(%d, %d)' % (x, y))
        for pt in c.points[1:]:
            for even in (True, False):
                want = next(q for q in c.points[1:] if q[0] == pt[0] and (q[1] % 2 == 0) == even)
                rep.step()
                rep.equal(tuple(E.public_pair_for_x(G, pt[0], even)), want, 'public_pair_for_x(%d, %s)' % (pt[0], even))
        def mk(q, order=None): return EC.INFINITY if q is None else EC.Point(curve, q[0], q[1], order)
        impl = [mk(q) for q in c.points]
        for q, i in zip(c.points, impl):
            for r, j in zip(c.points, impl):
                rep.state(case, q, r); rep.step()
                rep.equal(pair(i + j), c.add(q, r), '%s + %s on %s' % (q, r, case))
                rep.equal(bool(i == j), q == r, 'equality of %s and %s' % (q, r))
            rep.equal(pair(i.double()), c.add(q, q), 'double of %s' % (q,))
        for q in c.points:
            tbl = c.multiples(q) if q is not None else [None]
            with_order = mk(q, n)
            for k in range(0, 2 * n + 4):
                rep.state(case, q, k); rep.step(2)
                rep.equal(pair(mk(q) * k), tbl[k % len(tbl)], '%s * %d on %s' % (q, k, case))
                rep.equal(pair(k * with_order), tbl[k % len(tbl)], '%d * %s (with order) on %s' % (k, q, case))
                if q is not None:
                    rep.equal(pair(with_order * -k), tbl[-k % len(tbl)], '%s * -%d on %s' % (q, k, case))
        for k in range(1, n):
            rep.equal(tuple(E.public_pair_for_secret_exponent(G, k)), c.multiples(g)[k], 'public pair of %d' % k)
        rep.outcome('curve of order %s p' % ('above' if n > p else 'equal to' if n == p else 'below'))
        rep.sample('y^2 = x^3 + %dx + %d over F_%d, order %d: all sums and multiples' % (c.a, c.b, c.p, n))
    elif kind == 'sign':
        c = ec.Tiny(*case[1:])
        n, g = len(c.points), c.points[1]
        tbl = c.multiples(g)
        G = EC.Point(EC.CurveFp(c.p, c.a, c.b), g[0], g[1], n)
        for d in range(1, n):
            Q = tbl[d]
            for val in list(range(0, n + 2)) + [(1 << 252) * 3 + 5, 2 ** 256 - 1, 1 << 255]:
                rep.state(case, 'sign', d, val); rep.step(2)
                k = ec.rfc6979(n, d, val.to_bytes(32, 'big'))
                rep.equal(E.deterministic_generate_k(n, d, val), k, 'nonce(%d, %d, %d)' % (n, d, val))
                r = tbl[k][0] % n
                s = pow(k, n - 2, n) * (val + r * d) % n
                what, got = call(E.sign, G, d, val)
                if what == 'err':
                    rep.check(isinstance(got, RuntimeError) and (r == 0 or s == 0), 'sign raised %r', got)
                    rep.outcome('unlucky nonce')
                elif r and s:
                    rep.equal(tuple(got), (r, s), 'sign(%d, %d)' % (d, val))
                    rep.check(E.verify(G, Q, val, got), 'own signature (%d, %d) does not verify', d, val)
                    rep.outcome('signed')
                else:
                    rep.check(E.verify(G, Q, val, got), 'sign(%d, %d) gave an invalid signature', d, val)
            for e in range(n):          # recovery, for every nonce
                for k in range(1, n):
                    if tbl[k][0] >= n: continue
                    r = tbl[k][0] % n
                    s = pow(k, n - 2, n) * (e + r * d) % n
                    if not r or not s: continue
                    rep.state(case, 'recover', d, e, k); rep.step()
                    keys = E.possible_public_pairs_for_signature(G, e, (r, s))
                    rep.check(Q in keys, lambda: 'recovery(e=%d, r=%d, s=%d) on %s misses the signer %s: %s' % (e, r, s, case, Q, keys))
                    for q in keys: rep.check(valid(c, tbl, n, q, e, r, s), 'recovered key %s does not verify', q)
                    rep.traces += 1
                    rep.outcome('recovered %d' % len(keys))
    elif kind == 'verify':
        c = ec.Tiny(*case[1:4])
        n, g = len(c.points), c.points[1]
        tbl = c.multiples(g)
        G = EC.Point(EC.CurveFp(c.p, c.a, c.b), g[0], g[1], n)
        d = case[4]
        for e in list(range(n)) + [n, n + 1, 2 * n + 1]:
            for r in range(-1, n + 2):
                for s in range(-1, n + 2):
                    rep.state(case, e, r, s); rep.step()
                    want = valid(c, tbl, n, tbl[d], e, r, s)
                    rep.equal(bool(E.verify(G, tbl[d], e, (r, s))), want, 'verify(d=%d, e=%d, r=%d, s=%d) on %s' % (d, e, r, s, case))
                    rep.outcome('valid' if want else 'invalid')
    elif kind == 'rfc6979':
        n = ORDERS[case[1]]
        for hf in (hashlib.sha256, hashlib.sha1, hashlib.sha512):
            bits = 8 * hf().digest_size
            for d in sorted({1, 2, n - 1, n // 2, (n * 2) // 3, int.from_bytes(patterned(66, 1), 'big') % n} - {0}):
                if not 0 < d < n: continue
                vals = {v % (1 << bits) for v in digests(n) + [(1 << bits) - 1, 1 << (bits - 1), n << max(0, bits - n.bit_length()), (n - 1) << max(0, bits - n.bit_length())]}
                for v in sorted(vals):
                    rep.state('rfc', n, d, v, bits); rep.step()
                    want = ec.rfc6979(n, d, v.to_bytes(bits // 8, 'big'), hf)
                    rep.equal(E.deterministic_generate_k(n, d, v, hf), want, 'nonce(n=%d, d=%d, val=%d, %s)' % (n, d, v, hf().name))
                    if hf is hashlib.sha256: rep.equal(E.deterministic_generate_k(n, d, v), want, 'default hash')
        rep.outcome('rfc6979')
    elif kind == 'secp':
        d = case[1]
        G = utils.generator_secp256k1
        Q = ec.mul_g(d)
        rep.equal(tuple(utils.public_pair_for_secret_exponent(G, d)), Q, 'public pair')
        other = ec.mul_g(d + 1 if d + 1 < N else 5)
        for v in digests(N):
            k = ec.rfc6979(N, d, v.to_bytes(32, 'big'))
            r, s = ec.sign(d, v, k)
            rep.state('secp', d, v); rep.step(6)
            rep.equal(tuple(utils.sign(G, d, v)), (r, s), 'sign(%d, %d)' % (d, v))
            for key, val, sg in ((Q, v, (r, s)), (Q, v, (r, N - s)), (Q, v ^ 1, (r, s)), (other, v, (r, s)), (Q, v, (s, r)), (Q, v, (r, 0)),
                                 (Q, v, (0, s)), (Q, v, (r + N, s)), (Q, v, (r, s + N)), (Q, v, (N - r, s)), (Q, v, (-r, s))):
                want = ec.verify(key, val, *sg)
                rep.equal(bool(utils.verify(G, key, val, sg)), want, 'verify %s' % ((key, val, sg),))
                rep.outcome('secp valid' if want else 'secp invalid')
            keys = utils.possible_public_pairs_for_signature(G, v, (r, s))
            rep.check(Q in keys and all(ec.verify(q, v, r, s) for q in keys), 'recovery from %s gives %s', (r, s), keys)

    elif kind == 'near':                      # what is almost on the curve, almost the same point, almost valid
        G = utils.generator_secp256k1
        for j, gap in enumerate(ec.GAPS[case[1]:case[1] + 20]):
            x, y = ec.near(gap)
            rep.state('near', gap); rep.step(6)
            rep.check(not G.curve().contains_point(x, y), 'contains_point(%d, %d): off by %d', x, y, gap)
            rep.check(not E.is_public_pair_valid(G, (x, y)), 'is_public_pair_valid(%d, %d): off by %d', x, y, gap)
            refused(rep, Exception, 'Point(%d, %d), off by %d' % (x, y, gap), EC.Point, G.curve(), x, y)
            # two points whose x differ by the gap
            for x1 in range(1, 400):
                x2 = (x1 + gap) % ec.P
                y1, y2 = ec.lift(x1), ec.lift(x2)
                if y1 is not None and y2 is not None: break
            for a, b in (((x1, y1), (x2, y2)), ((x2, y2), (x1, ec.P - y1))):
                pa, pb = EC.Point(G.curve(), *a), EC.Point(G.curve(), *b)
                rep.check(not (pa == pb), '%r == %r', a, b)
                rep.equal(pair(pa + pb), ec.add(a, b), '%r + %r' % (a, b))
            # a signature whose r misses the computed one by the gap
            k = 1000 + case[1] + j
            r = (ec.mul_g(k)[0] + gap) % N
            z, s = int.from_bytes(patterned(32, j), 'big'), 12345 + j
            if r == 0 or r == ec.mul_g(k)[0] % N: continue
            d = (s * k - z) * pow(r, -1, N) % N
            if d == 0: continue
            rep.check(not E.verify(G, ec.mul_g(d), z, (r, s)), 'verify accepts (r, s) = (%d, %d) for digest %d and secret %d: r is off by %d', r, s, z, d, gap)
            rep.check(not ec.verify(ec.mul_g(d), z, r, s), 'the reference accepts it')
            rep.outcome('near misses')
    elif kind == 'level':                     # points of a large field whose x or y are equal or close, on curves through them
        p = ec.P
        gaps = sorted({2 ** k + d for k in range(256) for d in (-1, 0, 1)} | {m * 0x1000003d1 for m in range(-20, 21)} | {m * N % p for m in range(1, 20)}) 
        for j, gap in enumerate(gaps):
            if j % 8 != case[1] or gap % p == 0: continue
            for x1, y1, y2 in ((5, 11, 11), (5, 11, p - 11), (p - 3, 2 ** 128, (2 ** 128 + gap) % p), (2 ** 200 + 1, 1, (1 + gap) % p)):
                x2 = (x1 + gap) % p
                inv = pow(x2 - x1, -1, p)
                a = ((y2 * y2 - y1 * y1) - (x2 ** 3 - x1 ** 3)) * inv % p
                b = (y1 * y1 - x1 ** 3 - a * x1) % p
                if (4 * a ** 3 + 27 * b * b) % p == 0: continue
                c = EC.CurveFp(p, a, b)
                A, Bp = EC.Point(c, x1, y1), EC.Point(c, x2, y2)
                rep.state('level', gap, x1, y1, y2); rep.step(4)
                l = (y2 - y1) * inv % p
                x3 = (l * l - x1 - x2) % p
                want = (x3, (l * (x1 - x3) - y1) % p)
                rep.equal(pair(A + Bp), want, '(%d, %d) + (%d, %d) on the curve %d, %d' % (x1, y1, x2, y2, a, b))
                rep.equal(pair(Bp + A), want, '(%d, %d) + (%d, %d) on the curve %d, %d' % (x2, y2, x1, y1, a, b))
                l = (3 * x1 * x1 + a) * pow(2 * y1, -1, p) % p
                x3 = (l * l - 2 * x1) % p
                rep.equal(pair(A.double()), (x3, (l * (x1 - x3) - y1) % p), 'double of (%d, %d)' % (x1, y1))
                rep.equal(pair(A + A), (x3, (l * (x1 - x3) - y1) % p), '(%d, %d) + itself' % (x1, y1))
                rep.check(not (A == Bp), '(%d, %d) == (%d, %d)', x1, y1, x2, y2)
                rep.outcome('level')
    elif kind == 'mul':                       # multiples of secp256k1 points by scalars of every size and shape
        G = utils.generator_secp256k1
        curve = G.curve()
        k = case[1]
        base = ec.mul_g(9 + k)
        P9 = EC.Point(curve, base[0], base[1])
        PN = EC.Point(curve, base[0], base[1], N)
        for v in sorted({2 ** k, 2 ** (k + 1) - 1, 3 << k, (2 ** 256 // 3) >> k, 2 ** 256 - 2 ** k, N - 2 ** k if 2 ** k < N else 5, N + 2 ** k}):
            rep.state('mul', v); rep.step(4)
            want = ec.mul_g(v % N) if v % N else None
            rep.equal(pair(G * v), want, 'generator * %d' % v)
            rep.equal(pair(v * G), want, '%d * generator' % v)
            if 0 < v < N: rep.equal(tuple(utils.public_pair_for_secret_exponent(G, v)), want, 'public pair of %d' % v)
            w2 = ec.mul_g(v * (9 + k) % N) if v * (9 + k) % N else None
            rep.equal(pair(PN * v), w2, 'multiple %d of point %d with order' % (v, 9 + k))
            rep.equal(pair(P9 * v), w2, 'multiple %d of point %d' % (v, 9 + k))
            if want is None or w2 is None: continue
            A, Bp = EC.Point(curve, *want), EC.Point(curve, *w2)
            rep.equal(pair(A + Bp), ec.add(want, w2), 'sum of the multiples by %d' % v)
            rep.equal(pair(A + A), ec.add(want, want), 'twice the multiple %d' % v)
            rep.equal(pair(A.double()), ec.add(want, want), 'double of the multiple %d' % v)
            rep.check((A + EC.Point(curve, want[0], ec.P - want[1])) == EC.INFINITY, 'multiple %d minus itself', v)
            for even in (True, False):
                y = want[1] if (want[1] % 2 == 0) == even else ec.P - want[1]
                rep.equal(tuple(E.public_pair_for_x(G, want[0], even)), (want[0], y), 'public_pair_for_x(%d, %s)' % (want[0], even))
            for q in (want, (want[0], ec.P - want[1]), (want[0], want[1] ^ 1), (want[0] ^ 1, want[1]), (want[0], want[1] ^ 1 << 255), (want[0] ^ 1 << 128, want[1])):
                rep.equal(bool(E.is_public_pair_valid(G, q)), ec.on_curve(*q), 'is_public_pair_valid(%s)' % (q,))
        rep.outcome('multiples')
    elif kind == 'size':                      # keys, digests and signature numbers of every size
        G = utils.generator_secp256k1
        k = case[1]
        for d, v in sorted({(min(2 ** k, N - 1), 2 ** 255 + 5), (7, 2 ** k % 2 ** 256), (7, 2 ** 256 - 1 - (2 ** k - 1) // 2), ((2 ** 256 // 3 >> k) or 1, 2 ** k // 3)}):
            r, s = ec.sign(d, v, ec.rfc6979(N, d, v.to_bytes(32, 'big')))
            Q = ec.mul_g(d)
            rep.state('size', d, v); rep.step(4)
            rep.equal(tuple(utils.sign(G, d, v)), (r, s), 'sign(%d, %d)' % (d, v))
            rep.check(utils.verify(G, Q, v, (r, s)), 'verify of sign(%d, %d)', d, v)
            rep.check(not utils.verify(G, Q, v ^ 1 << 255, (r, s)) and not utils.verify(G, Q, v ^ 1 << k % 256, (r, s)), 'another digest verifies with sign(%d, %d)', d, v)
            keys = utils.possible_public_pairs_for_signature(G, v, (r, s))
            rep.check(Q in keys and all(ec.verify(q, v, r, s) for q in keys), 'recovery from %s gives %s', (r, s), keys)
        for nonce in (3, 77):                  # a signature whose s has that size, for the digest that makes it one
            d, r = 11, ec.mul_g(nonce)[0] % N
            for s in (2 ** k, 2 ** k - 1, N - 2 ** k):
                if not 0 < s < N: continue
                v = (s * nonce - r * d) % N
                Q = ec.mul_g(d)
                rep.state('s', nonce, s); rep.step(2)
                rep.check(utils.verify(G, Q, v, (r, s)), 'a valid signature with s = %d does not verify', s)
                for bad in ((r, s + 1), (r, s ^ 1 << k % 255), (r ^ 1, s), (s, r), (r, s + N), (r, -s)):
                    rep.equal(bool(utils.verify(G, Q, v, bad)), ec.verify(Q, v, *bad), 'verify of %s' % (bad,))
                keys = utils.possible_public_pairs_for_signature(G, v, (r, s))
                rep.check(Q in keys and all(ec.verify(q, v, r, s) for q in keys), 'recovery from %s gives %s', (r, s), keys)
        rep.outcome('sizes')
    elif kind == 'short r':                   # nonce points whose x is short
        G = utils.generator_secp256k1
        pt, g = None, ec.mul_g(1)
        for nonce in range(1, case[2] + 1):
            pt = ec.add(pt, g)
            if nonce % 8 != case[1] or pt[0] >> 248 and nonce > 24: continue
            for d in (5, N - 6):
                v = int.from_bytes(patterned(32, nonce), 'big')
                r = pt[0] % N
                s = pow(nonce, N - 2, N) * (v + r * d) % N
                Q = ec.mul_g(d)
                rep.state('short r', nonce, d); rep.step(2)
                rep.check(utils.verify(G, Q, v, (r, s)), 'a valid signature with r = %d does not verify', r)
                rep.equal(bool(utils.verify(G, Q, v, (s, r))), ec.verify(Q, v, s, r), 'swapped')
                keys = utils.possible_public_pairs_for_signature(G, v, (r, s))
                rep.check(Q in keys and all(ec.verify(q, v, r, s) for q in keys), 'recovery from %s gives %s', (r, s), keys)
        rep.outcome('short r')
    elif kind == 'numbers':                   # inverses and roots modulo the large primes, of numbers of every size
        for k in range(case[1], case[1] + 16):
            for p in (ec.P, N, 2 ** 255 - 19):
                for a in (2 ** k, 2 ** k + 1, 2 ** (k + 1) - 1, p - 2 ** k, p + 2 ** k, (p // 3) >> k, -2 ** k):
                    if a % p == 0: continue
                    rep.state('number', a, p); rep.step(2)
                    v = NT.inverse_mod(a, p)
                    rep.check(0 < v < p and v * a % p == 1, 'inverse_mod(%d, %d) = %r', a, p, v)
                    b = a % p
                    want = 1 if pow(b, (p - 1) // 2, p) == 1 else -1
                    if p != N: rep.equal(NT.legendre_symbol(b, p), want, 'legendre_symbol(%d, %d)' % (b, p))
                    if p == ec.P:
                        root = NT.modular_sqrt(b, p)
                        rep.check(root * root % p == b if want == 1 else root == 0, 'modular_sqrt(%d, %d) = %r', b, p, root)
        rep.outcome('numbers')


def valid(c, tbl, n, Q, e, r, s):
    """By definition: exists with 1 <= r, s < n and x(s^-1 (eG + rQ)) = r."""
    if not (1 <= r < n and 1 <= s < n) or Q not in tbl: return False
    w = pow(s, n - 2, n)
    pt = tbl[(e * w + r * w * tbl.index(Q)) % n]
    return pt is not None and pt[0] % n == r

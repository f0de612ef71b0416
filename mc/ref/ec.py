"""Independent reference: secp256k1 in Jacobian coordinates, ECDSA, RFC 6979; and a naive group for tiny curves."""
import hashlib, hmac

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def on_curve(x, y): return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def _jadd(a, b):
    if a is None: return b
    if b is None: return a
    x1, y1, z1 = a; x2, y2, z2 = b
    z1z1 = z1 * z1 % P; z2z2 = z2 * z2 % P
    u1 = x1 * z2z2 % P; u2 = x2 * z1z1 % P
    s1 = y1 * z2 * z2z2 % P; s2 = y2 * z1 * z1z1 % P
    if u1 == u2:
        return _jdbl(a) if s1 == s2 else None
    h = (u2 - u1) % P; r = (s2 - s1) % P
    hh = h * h % P; hhh = h * hh % P; v = u1 * hh % P
    x3 = (r * r - hhh - 2 * v) % P
    return x3, (r * (v - x3) - s1 * hhh) % P, h * z1 * z2 % P


def _jdbl(a):
    if a is None: return None
    x, y, z = a
    if y == 0: return None
    yy = y * y % P
    s = 4 * x * yy % P
    m = 3 * x * x % P
    x3 = (m * m - 2 * s) % P
    return x3, (m * (s - x3) - 8 * yy * yy) % P, 2 * y * z % P


def _aff(a):
    if a is None: return None
    zi = pow(a[2], -1, P); zz = zi * zi % P
    return a[0] * zz % P, a[1] * zz * zi % P


def _jmul(k, p):
    k %= N
    acc, base = None, (p[0], p[1], 1)
    while k:
        if k & 1: acc = _jadd(acc, base)
        base = _jdbl(base)
        k >>= 1
    return acc


_table = []


def _gmul(k):
    k %= N
    if not _table:
        base = (G[0], G[1], 1)
        for _ in range(64):
            row = [None]
            for _ in range(15): row.append(_jadd(row[-1], base))
            _table.append(row)
            base = _jadd(row[15], base)
    acc = None
    for i in range(64):
        d = (k >> (4 * i)) & 15
        if d: acc = _jadd(acc, _table[i][d])
    return acc


def mul_g(k): return _aff(_gmul(k))
def mul(k, p): return _aff(_jmul(k, p))
def add(p, q): return _aff(_jadd(p and (p[0], p[1], 1), q and (q[0], q[1], 1)))


def sec(p, compressed=True):
    if compressed: return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big')
    return b'\x04' + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')


def lift(x):
    """The even y of x, or None."""
    if not 0 <= x < P: return None
    a = (x * x * x + 7) % P
    y = pow(a, (P + 1) // 4, P)
    if y * y % P != a: return None
    return y if y % 2 == 0 else P - y


def lift_y(y):
    """Some x with (x, y) on the curve, or None (p is 7 mod 9, so a cube root of c is c^((p + 2) / 9) if there is one)."""
    c = (y * y - 7) % P
    x = pow(c, (P + 2) // 9, P)
    return x if pow(x, 3, P) == c else None


BETA = pow(3, (P - 1) // 3, P)
# second coordinates of points with a first coordinate of 31 or 30 bytes, and the other way around
SHORT_Y = (33, 236, 411, 1042, 1392, 1547, 1804, 1805, 2376, 2490, 2803, 2804, 23677, 32576)
SHORT_X = (260, 269, 402, 500, 636, 1014, 1083, 1922, 2337, 2372, 2939, 2990, 37528)


def lifts_y(y):
    """All x with (x, y) on the curve."""
    x = lift_y(y)
    return [] if x is None else [x, x * BETA % P, x * BETA * BETA % P]


def short_points():
    for y in SHORT_Y:
        for x in lifts_y(y):
            if x >> 248 == 0: yield x, y
    for x in SHORT_X: yield x, lift(x)


def near(d):
    """Some (x, y) with y^2 = x^3 + 7 + d: not on the curve, by exactly d."""
    for x in range(1, 400):
        a = (x * x * x + 7 + d) % P
        y = pow(a, (P + 1) // 4, P)
        if y * y % P == a: return x, y


# differences that a comparison of a part, or of a digest, of two numbers does not see
GAPS = [2 ** k for k in range(256)] + [-2 ** k for k in range(256)] + [m * f for m in (2 ** 8 - 1, 2 ** 16 - 1, 2 ** 16 + 1, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32 + 1, 2 ** 61 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 128 - 1, 65521) for f in (1, 2, -1)]


def sec_parse(b):
    """(point, compressed), or None."""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        y = lift(x)
        if y is None: return None
        return (x, y if b[0] == 2 else P - y), True
    if len(b) == 65 and b[0] == 4:
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        return ((x, y), False) if on_curve(x, y) else None
    return None


def verify(point, e, r, s):
    if not (1 <= r < N and 1 <= s < N): return False
    w = pow(s, -1, N)
    q = _aff(_jadd(_gmul(e * w % N), _jmul(r * w % N, point)))
    return q is not None and q[0] % N == r


def sign(d, e, k):
    r = mul_g(k)[0] % N
    return r, pow(k, -1, N) * (e + r * d) % N


def rfc6979(n, x, e_bytes, hash_f=hashlib.sha256):
    """RFC 6979 section 3.2 with h1 = e_bytes (the hash itself)."""
    qlen = n.bit_length(); rlen = (qlen + 7) // 8
    def bits2int(b):
        v = int.from_bytes(b, 'big')
        return v >> (8 * len(b) - qlen) if 8 * len(b) > qlen else v
    hlen = hash_f().digest_size
    seed = x.to_bytes(rlen, 'big') + (bits2int(e_bytes) % n).to_bytes(rlen, 'big')
    V, K = b'\1' * hlen, b'\0' * hlen
    for tag in (b'\0', b'\1'):
        K = hmac.new(K, V + tag + seed, hash_f).digest()
        V = hmac.new(K, V, hash_f).digest()
    while True:
        T = b''
        while 8 * len(T) < qlen:
            V = hmac.new(K, V, hash_f).digest()
            T += V
        k = bits2int(T)      # T is a whole number of blocks: RFC takes the leftmost qlen bits
        if 1 <= k < n: return k
        K = hmac.new(K, V + b'\0', hash_f).digest()
        V = hmac.new(K, V, hash_f).digest()


class Tiny(object):
    """A curve over a small prime field with its group given by exhaustive tables."""

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b
        self.points = [None] + [(x, y) for x in range(p) for y in range(p)
                                if (y * y - x * x * x - a * x - b) % p == 0]

    def add(self, P1, P2):
        if P1 is None: return P2
        if P2 is None: return P1
        (x1, y1), (x2, y2), p = P1, P2, self.p
        if x1 == x2 and (y1 + y2) % p == 0: return None
        if P1 == P2: l = (3 * x1 * x1 + self.a) * pow(2 * y1, p - 2, p)
        else: l = (y2 - y1) * pow(x2 - x1, p - 2, p)
        x3 = (l * l - x1 - x2) % p
        return x3, (l * (x1 - x3) - y1) % p

    def multiples(self, P1):
        """[0*P, 1*P, ...] up to the order."""
        out, q = [None], P1
        while q is not None:
            out.append(q)
            q = self.add(q, P1)
        return out


def is_prime(n): return n > 1 and all(n % i for i in range(2, int(n ** .5) + 1))


def tiny_curves(pmax):
    """Every non-singular curve of prime order over F_p, 5 <= p <= pmax."""
    for p in range(5, pmax + 1):
        if not is_prime(p): continue
        for a in range(p):
            for b in range(p):
                if (4 * a ** 3 + 27 * b ** 2) % p == 0: continue
                c = Tiny(p, a, b)
                if is_prime(len(c.points)) and len(c.points) > 2:
                    yield c

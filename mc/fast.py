"""
Speeds up the third-party ecdsa package (not part of the code under test) on secp256k1,
for checks that run many signatures and are not about signatures. The results are the same.
"""
from .ref import ec


def install():
    try:
        from ecdsa import ellipticcurve
        Point, INFINITY = ellipticcurve.Point, ellipticcurve.INFINITY
        slow = Point.__mul__
        ec.mul_g(1)          # build the table now

        def mul(self, other):
            curve = self.curve()
            if curve is None or curve.p() != ec.P or curve.a() or not isinstance(other, int): return slow(self, other)
            e = other % ec.N
            if e == 0: return INFINITY
            x, y = ec.mul_g(e) if self.x() == ec.G[0] and self.y() == ec.G[1] else ec.mul(e, (self.x(), self.y() % ec.P))
            return Point(curve, x, y)
        Point.__mul__ = mul
    except Exception:
        pass          # another version of the package: just slower

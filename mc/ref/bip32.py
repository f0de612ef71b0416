"""Independent reference: BIP32."""
import hashlib, hmac
from . import ec
from .basics import b58cenc, hash160

VERSIONS = {'livenet': (0x0488ade4, 0x0488b21e), 'testnet': (0x04358394, 0x043587cf)}
H = 0x80000000


class Node(object):
    """priv is None for public nodes."""
    def __init__(self, priv, point, chain, depth=0, index=0, parent=b'\0\0\0\0', net='livenet'):
        self.priv, self.chain, self.depth, self.index, self.parent, self.net = priv, chain, depth, index, parent, net
        self.point = point if point is not None else ec.mul_g(priv)

    @property
    def sec(self): return ec.sec(self.point)

    @property
    def fingerprint(self): return hash160(self.sec)[:4]

    def child(self, i):
        data = (b'\0' + self.priv.to_bytes(32, 'big')) if i >= H else self.sec
        I = hmac.new(self.chain, data + i.to_bytes(4, 'big'), hashlib.sha512).digest()
        il = int.from_bytes(I[:32], 'big')
        if il >= ec.N: return None
        if self.priv is not None:
            k = (il + self.priv) % ec.N
            if k == 0: return None
            return Node(k, None, I[32:], self.depth + 1, i, self.fingerprint, self.net)
        q = ec.add(ec.mul_g(il), self.point)
        if q is None: return None
        return Node(None, q, I[32:], self.depth + 1, i, self.fingerprint, self.net)

    def neuter(self): return Node(None, self.point, self.chain, self.depth, self.index, self.parent, self.net)

    def payload(self):
        v = VERSIONS[self.net][0 if self.priv is not None else 1]
        key = b'\0' + self.priv.to_bytes(32, 'big') if self.priv is not None else self.sec
        return v.to_bytes(4, 'big') + bytes([self.depth]) + self.parent + self.index.to_bytes(4, 'big') + self.chain + key

    def text(self): return b58cenc(self.payload())


def master(seed, net='livenet'):
    I = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
    return Node(int.from_bytes(I[:32], 'big'), None, I[32:], net=net)

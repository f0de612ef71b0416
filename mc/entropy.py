"""Puts the operating system's entropy source behind a seam (installed before bitforge is imported)."""
import os, random, threading

_real = os.urandom
_local = threading.local()       # each thread has its own source, and log of the sizes it was asked for


def _urandom(n):
    source = getattr(_local, 'source', None)
    if source is None:
        return _real(n)
    _local.log.append(n)
    return source(n)


def install():
    os.urandom = _urandom
    random._urandom = _urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _urandom(n)
    try:
        import secrets  # uses random.SystemRandom and, for token_bytes, the same generator
    except ImportError:
        pass


def script(source):
    """Answer every request with source(n), or the real thing if None. Returns the previous log."""
    out = getattr(_local, 'log', [])
    _local.log = []
    _local.source = source
    return out


class Counter(object):
    """An entropy stream: the bytes `data`, then an endless deterministic continuation."""

    def __init__(self, data, tail=0):
        self.data, self.pos, self.tail = bytes(data), 0, tail

    def __call__(self, n):
        import hashlib
        out = bytearray()
        while len(out) < n:
            if self.pos < len(self.data):
                out.append(self.data[self.pos])
            else:
                q = self.pos - len(self.data)
                out.append(hashlib.sha256(b'%d/%d' % (self.tail, q // 32)).digest()[q % 32])
            self.pos += 1
        return bytes(out)

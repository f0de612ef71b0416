"""Independent reference: hashes, Base58Check, integers, script numbers, strict DER."""
import hashlib

ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def sha256(b): return hashlib.sha256(b).digest()
def dsha(b): return sha256(sha256(b))
def rmd160(b): return hashlib.new('ripemd160', b).digest()
def hash160(b): return rmd160(sha256(b))
def sha1(b): return hashlib.sha1(b).digest()


def b58enc(data):
    zeros = len(data) - len(data.lstrip(b'\0'))
    n = int.from_bytes(data, 'big')
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = ALPHABET[r] + out
    return '1' * zeros + out


def b58dec(text):
    """bytes, or None."""
    n = 0
    for c in text:
        i = ALPHABET.find(c)
        if i < 0 or len(c) != 1:
            return None
        n = n * 58 + i
    zeros = len(text) - len(text.lstrip('1'))
    return b'\0' * zeros + (n.to_bytes((n.bit_length() + 7) // 8, 'big') if n else b'')


def b58cenc(data): return b58enc(data + dsha(data)[:4])


def b58cdec(text):
    raw = b58dec(text)
    if raw is None or len(raw) < 4 or dsha(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


def varint(n):
    if n < 0xfd: return bytes([n])
    if n <= 0xffff: return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff: return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def num_enc(n):
    if n == 0: return b''
    m = abs(n)
    out = bytearray(m.to_bytes((m.bit_length() + 7) // 8, 'little'))
    if out[-1] & 0x80:
        out.append(0x80 if n < 0 else 0)
    elif n < 0:
        out[-1] |= 0x80
    return bytes(out)


def num_dec(b):
    if not b: return 0
    v = int.from_bytes(b, 'little')
    top = 1 << (8 * len(b) - 1)
    return -(v - top) if v & top else v


def num_minimal(b): return num_enc(num_dec(b)) == bytes(b)


def strict_der(sig):
    """BIP66, on the signature *with* its hash type byte. Parses forward (unlike bitcoind's index checks)."""
    sig = bytes(sig)
    if not 9 <= len(sig) <= 73: return False
    body = sig[:-1]
    if body[0] != 0x30 or body[1] != len(body) - 2: return False
    pos = 2
    for _ in range(2):
        if len(body) < pos + 2 or body[pos] != 0x02: return False
        n = body[pos + 1]
        val = body[pos + 2:pos + 2 + n]
        if n == 0 or len(val) != n: return False
        if val[0] & 0x80: return False
        if n > 1 and val[0] == 0 and not val[1] & 0x80: return False
        pos += 2 + n
    return pos == len(body)


def der(r, s):
    def integer(v):
        b = v.to_bytes((v.bit_length() + 8) // 8, 'big')
        return b'\x02' + bytes([len(b)]) + b
    body = integer(r) + integer(s)
    return b'\x30' + bytes([len(body)]) + body


def der_parse(sig):
    """(r, s) of a strictly encoded signature without hash type, or None."""
    if not strict_der(sig + b'\x01'): return None
    n = sig[3]
    m = sig[5 + n]
    return int.from_bytes(sig[4:4 + n], 'big'), int.from_bytes(sig[6 + n:6 + n + m], 'big')

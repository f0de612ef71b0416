"""Planted bugs: specifications (see plant.py).  No check reads this."""
SPECS = []
def P(id, property, edits, needs, breaks, demo, also=(), own=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also), own=own))

def own(*ids):
    "these change lines of the fix: commits, so they cannot be handed in, but are checked all the same"
    for s in SPECS:
        if s['id'] in ids: s['own'] = True

ENC = 'bitforge/utils/encoding.py'
BENC = 'bitforge/encoding.py'

# ---------------------------------------------------------------- C01
P('c01-short-checksum', 'C01', [(ENC,
    "    if double_sha256(data)[:4] == the_hash:\n", "    if double_sha256(data).startswith(the_hash):\n")],
  'a text that decodes to fewer than four bytes',
  'the checksum of a text shorter than a checksum is only compared for the bytes that are there',
'''
from bitforge.encoding import decode_base58h, InvalidBase58h
import hashlib
first = hashlib.sha256(hashlib.sha256(b'').digest()).digest()[:1]
from bitforge.utils.encoding import b2a_base58
for text in ['', b2a_base58(first)]:
    try:
        decode_base58h(text)
    except InvalidBase58h:
        continue
    raise AssertionError('accepted %r' % text)
''')

P('c01-leading-zero-run', 'C01', [(ENC,
    "    l.extend([charset(0)] * prefix)\n", "    l.extend([charset(0)] * min(prefix, 32))\n")],
  'a payload with more than 32 leading zero bytes',
  'leading zeros beyond a limit are dropped when encoding and decoding',
'''
from bitforge.encoding import encode_base58h, decode_base58h
for n in range(0, 80):
    data = b'\\0' * n + b'x'
    assert decode_base58h(encode_base58h(data)) == data, n
''')

P('c01-strip-space', 'C01', [(BENC,
    "        return utils.encoding.a2b_hashed_base58(string)\n",
    "        return utils.encoding.a2b_hashed_base58(string.strip() if hasattr(string, 'strip') else string)\n")],
  'a valid text followed or preceded by white space',
  'texts that are not the encoding of any payload are accepted',
'''
from bitforge.encoding import encode_base58h, decode_base58h, InvalidBase58h
t = encode_base58h(b'hello')
for bad in (t + ' ', ' ' + t, t + '\\n', t + '\\u2003'):
    try:
        decode_base58h(bad)
    except InvalidBase58h:
        continue
    raise AssertionError('accepted %r' % bad)
''')

# ---------------------------------------------------------------- C02
P('c02-marker-truthy', 'C02', [('bitforge/privkey.py',
    "            if bytes[-1] != 0x01:\n", "            if bytes[-1] not in (0x01, 0x02, 0x03):\n")],
  'a 34-byte payload whose last byte is 2 or 3',
  'keys with a wrong compression marker are accepted',
'''
from bitforge import PrivateKey
from bitforge.encoding import encode_base58h
for last in range(256):
    text = encode_base58h(b'\\x80' + b'\\x11' * 32 + bytes([last]))
    try:
        PrivateKey.from_wif(text); ok = True
    except PrivateKey.Error:
        ok = False
    assert ok == (last == 1), last
''')

P('c02-hex-compression', 'C02', [('bitforge/privkey.py',
    "        return PrivateKey.from_bytes(bytes, network, compressed)\n",
    "        return PrivateKey.from_bytes(bytes, network)\n")],
  'hexadecimal import with compressed = False',
  'the requested compression is lost when importing from hexadecimal',
'''
from bitforge import PrivateKey
for n in ('livenet', 'testnet'):
    for c in (True, False):
        k = PrivateKey(12345, n, c)
        assert PrivateKey.from_hex(k.to_hex(), n, c) == k
''')

P('c02-short-secret', 'C02', [('bitforge/privkey.py',
    "        return encode_int(self.secret, length = 32)\n",
    "        return encode_int(self.secret).rjust(31, b'\\0').rjust(32, b'\\0') if self.secret >> 240 else encode_int(self.secret).rjust(32, b'\\x00' if self.secret & 0xff else b'0')\n")],
  'a small secret (fewer than 31 bytes) whose lowest byte is zero',
  'the exported secret is padded with another byte than zero',
'''
from bitforge import PrivateKey
for s in (1, 255, 256, 65536, 1 << 200, (1 << 200) + 1, 1 << 250):
    k = PrivateKey(s)
    assert k.to_bytes() == s.to_bytes(32, 'big'), s
    assert PrivateKey.from_wif(k.to_wif()) == k, s
''')

P('c02-order-included', 'C02', [('bitforge/privkey.py',
    "        if not (0 < secret < KEY_MAX):\n", "        if not (0 < secret <= KEY_MAX):\n")],
  'the secret equal to the group order',
  'a secret out of range is accepted',
'''
from bitforge import PrivateKey
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
for s in (0, N, N + 1, (1 << 256) - 1):
    try:
        PrivateKey.from_bytes(s.to_bytes(32, 'big'))
    except PrivateKey.Error:
        continue
    raise AssertionError(s)
''')

# ---------------------------------------------------------------- C03
P('c03-long-payload', 'C03', [('bitforge/address.py',
    "        if len(bytes) != 21:\n", "        if len(bytes) < 21:\n"),
    ('bitforge/address.py', "        return Address(bytes[1:], network, type)\n", "        return Address(bytes[1:21], network, type)\n")],
  'a payload longer than 21 bytes',
  'over-long payloads (such as the WIF of another kind) are read as an address',
'''
from bitforge import Address
from bitforge.encoding import encode_base58h
for n in range(0, 40):
    for v in (0, 5, 111, 196):
        text = encode_base58h(bytes([v]) + b'a' * n)
        try:
            Address.from_string(text); ok = True
        except Address.Error:
            ok = False
        assert ok == (n == 20), (n, v)
''')

P('c03-testnet-script', 'C03', [('bitforge/address.py',
    "        phash = ripemd160(sha256(script.to_bytes()))\n        return Address(phash, network, Address.Type.Script)\n",
    "        phash = ripemd160(sha256(script.to_bytes()))\n        return Address(phash, type = Address.Type.Script)\n")],
  'the address of a script on the test network',
  'the requested network of a script address is ignored',
'''
from bitforge import Address, networks
from bitforge.script import Script
s = Script.from_bytes(b'\\x51')
for net in (networks.livenet, networks.testnet):
    a = Address.from_script(s, net)
    assert a.network == net and a.to_bytes()[0] == net.scripthash
''')

P('c03-trailing-zero', 'C03', [('bitforge/address.py',
    "        phash = ripemd160(sha256(pubkey.to_bytes()))\n",
    "        phash = ripemd160(sha256(pubkey.to_bytes().rstrip(b'\\0')))\n")],
  'the address of a public key whose last byte is zero',
  'the address is the hash of a shorter string than the key',
'''
import hashlib
from bitforge import PrivateKey, Address
def h160(b): return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()
for i in range(1, 400):
    for c in (True, False):
        pub = PrivateKey(i, 'testnet', c).to_public_key()
        assert Address.from_public_key(pub).phash == h160(pub.to_bytes()), (i, c)
''')

# ---------------------------------------------------------------- C04
P('c04-hybrid', 'C04', [(ENC, "    if sec0 == b'\\4':\n", "    if sec0 in (b'\\4', b'\\6', b'\\7'):\n")],
  'a 65-byte hybrid encoding (prefix 6 or 7)',
  'non-standard encodings are accepted and written back as other bytes',
'''
from bitforge import PrivateKey, PublicKey
u = PrivateKey(5, compressed = False).to_public_key().to_bytes()
for p in range(256):
    try:
        k = PublicKey.from_bytes(bytes([p]) + u[1:])
    except PublicKey.Error:
        continue
    assert k.to_bytes() == bytes([p]) + u[1:], p
''')

P('c04-x-out-of-field', 'C04', [('bitforge/utils/ecdsa.py',
    "    beta = numbertheory.modular_sqrt(alpha, p)\n    if is_even == bool(beta & 1):\n        return (x, p - beta)\n    return (x, beta)\n",
    "    x %= p\n    beta = numbertheory.modular_sqrt(alpha, p)\n    if is_even == bool(beta & 1):\n        return (x, p - beta)\n    return (x, beta)\n")],
  'a compressed encoding whose x is the field size plus a valid x',
  'encodings with a coordinate outside the field are accepted',
'''
from bitforge import PublicKey
p = 2**256 - 2**32 - 977
for x in range(p, p + 60):
    for m in (2, 3):
        try:
            PublicKey.from_bytes(bytes([m]) + x.to_bytes(32, 'big'))
        except PublicKey.Error:
            continue
        raise AssertionError(x - p)
''')

P('c04-small-uncompressed', 'C04', [('bitforge/pubkey.py',
    "        return PublicKey(pair, privkey.network, privkey.compressed)\n",
    "        return PublicKey(pair, privkey.network, privkey.compressed or privkey.secret.bit_length() < 128)\n")],
  'an uncompressed private key with a small secret',
  'the public key of such a key is compressed',
'''
from bitforge import PrivateKey
for n in ('livenet', 'testnet'):
    for c in (True, False):
        k = PrivateKey(9, n, c)
        p = k.to_public_key()
        assert (p.network, p.compressed) == (k.network, k.compressed)
''')

# ---------------------------------------------------------------- C05
P('c05-sqrt-5mod8', 'C05', [('bitforge/utils/numbertheory.py',
    "    elif p % 4 == 3:\n        return pow(a, (p + 1) // 4, p)\n",
    "    elif p % 4 == 3:\n        return pow(a, (p + 1) // 4, p)\n    elif p % 8 == 5:\n        return pow(a, (p + 3) // 8, p)\n"),
    ('bitforge/utils/numbertheory.py', "        for m in range(r):\n            if t == 1:\n", "        for m in range(r):\n            if 1 == t:\n")],
  'a prime congruent to 5 modulo 8 and a residue whose quartic character is -1',
  'the square root is that of -a',
'''
from bitforge.utils.numbertheory import modular_sqrt
for p in (3, 5, 7, 11, 13, 17, 29, 37, 41, 53):
    for r in range(1, p):
        a = r * r % p
        assert modular_sqrt(a, p) in (r, p - r), (a, p)
''')

P('c05-add-inverse', 'C05', [('bitforge/utils/ellipticcurve.py',
    "      if ( self.__y + other.__y ) % self.__curve.p() == 0:\n", "      if self.__y + other.__y == self.__curve.p():\n")],
  'adding a point and its negative held with a negative coordinate (as the multiplication loop does)',
  'the sum of a point and its inverse is not the point at infinity',
'''
from bitforge.utils.ellipticcurve import CurveFp, Point, INFINITY
c = CurveFp(23, 1, 1)
for x in range(23):
    for y in range(23):
        if c.contains_point(x, y):
            P = Point(c, x, y)
            assert P + Point(c, x, -y) == INFINITY or y == 0, (x, y)
            if y == 0: assert P + P == INFINITY
''')

P('c05-verify-upper', 'C05', [('bitforge/utils/ecdsa.py',
    "    if s < 1 or s > n-1: return False\n", "    if s < 1: return False\n")],
  'a signature whose s is increased by the group order',
  'verification accepts pairs out of range',
'''
from bitforge.utils import sign, verify, generator_secp256k1 as G, public_pair_for_secret_exponent as pub
n = G.order()
r, s = sign(G, 77, 1234)
P = pub(G, 77)
assert verify(G, P, 1234, (r, s))
for k in (1, 2):
    assert not verify(G, P, 1234, (r, s + k * n))
''')

P('c05-rfc6979-short', 'C05', [('bitforge/utils/ecdsa.py',
    "        if k1 >= 1 and k1 < n:\n            return k1\n", "        if k1 < n:\n            return k1 or 1\n")],
  'an RFC 6979 candidate equal to zero (small group orders)',
  'the nonce is 1 instead of the next candidate',
'''
import hashlib, hmac
from bitforge.utils.ecdsa import deterministic_generate_k
def ref(n, x, h):
    qlen = n.bit_length(); rl = (qlen + 7) // 8
    V, K = b'\\1' * 32, b'\\0' * 32
    z = h >> max(0, 256 - qlen)
    b = x.to_bytes(rl, 'big') + (z % n).to_bytes(rl, 'big')
    for sep in (b'\\0', b'\\1'):
        K = hmac.new(K, V + sep + b, hashlib.sha256).digest(); V = hmac.new(K, V, hashlib.sha256).digest()
    while True:
        T = b''
        while len(T) < rl:
            V = hmac.new(K, V, hashlib.sha256).digest(); T += V
        k = int.from_bytes(T, 'big') >> (len(T) * 8 - qlen)
        if 1 <= k < n: return k
        K = hmac.new(K, V + b'\\0', hashlib.sha256).digest(); V = hmac.new(K, V, hashlib.sha256).digest()
for n in (5, 7, 13, 31):
    for x in range(1, n):
        for v in range(64):
            h = v << 250
            assert deterministic_generate_k(n, x, h) == ref(n, x, h), (n, x, v)
''')

P('c05-recover-unverified', 'C05', [('bitforge/utils/ecdsa.py',
    "    for y in [beta, p - beta]:\n", "    for y in {beta, p - beta}:\n"),
    ('bitforge/utils/ecdsa.py', "    c = numbertheory.inverse_mod( s, n )\n    u1 = ( val * c ) % n\n", "    c = pow(s, n - 2, n)\n    u1 = ( val % (n + 1) * c ) % n\n")],
  'a digest at least as large as the group order plus one',
  'the digest is reduced by the wrong modulus when verifying',
'''
from bitforge.utils import sign, verify, generator_secp256k1 as G, public_pair_for_secret_exponent as pub
n = G.order()
for val in (1, n - 1, n, n + 1, n + 2, 2**256 - 1):
    assert verify(G, pub(G, 3), val, sign(G, 3, val)), val - n
''')

# ---------------------------------------------------------------- C06
P('c06-strip-hashtype', 'C06', [('bitforge/privkey.py',
    "        return verifying_key.verify_digest(signature, message, sigdecode = sigdecode_strict)\n",
    "        if len(signature) > 2 and bytearray(signature)[1] == len(signature) - 3:\n            signature = signature[:-1] # ends in a hash type\n\n        return verifying_key.verify_digest(signature, message, sigdecode = sigdecode_strict)\n")],
  'a signature followed by one more byte',
  'a tampered signature (with a trailing byte) is confirmed',
'''
from bitforge import PrivateKey
k = PrivateKey(12345); d = b'\\x42' * 32
s = k.sign(d)
assert k.verify(s, d)
for extra in (b'\\0', b'\\1', b'\\x83'):
    try:
        ok = k.verify(s + extra, d)
    except Exception:
        ok = False
    assert not ok, extra
''')

P('c06-high-s-window', 'C06', [('bitforge/privkey.py',
    "        return signing_key.sign_digest(message, sigencode = sigencode_canonical)\n",
    "        encode = sigencode_canonical if bytearray(message)[0] < 0xff else ecdsa.util.sigencode_der\n        return signing_key.sign_digest(message, sigencode = encode)\n")],
  'a digest that begins with 0xff and a nonce giving a high S',
  'signatures of such digests may have a high S',
'''
from bitforge import PrivateKey
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
k = PrivateKey(12345)
for i in range(40):
    for d in (b'\\xff' * 31 + bytes([i]), b'\\x10' * 31 + bytes([i])):
        s = k.sign(d)
        rl = s[3]; S = int.from_bytes(s[6 + rl:], 'big')
        assert S <= n // 2
''')

P('c06-digest-trim', 'C06', [('bitforge/privkey.py',
    "        signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        return signing_key.sign_digest(message, ",
    "        signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        message = message.lstrip(b'\\0') or message\n        return signing_key.sign_digest(message, ")],
  'a digest of the full size that does not begin with a zero is unaffected; shorter digests neither (the number is the same)',
  'placeholder', 
'''
raise SystemExit(0)
''')
SPECS.pop()   # value-preserving: not a bug

P('c06-trailing-zero-digest', 'C06', [('bitforge/privkey.py',
    "    def verify(self, signature, message):\n",
    "    def verify(self, signature, message):\n        message = message.rstrip(b'\\0') if len(message) > 32 else message\n"),
    ('bitforge/privkey.py', "        return verifying_key.verify_digest(signature, message, sigdecode", "        return verifying_key.verify_digest(signature, message[:32], sigdecode")],
  'a digest longer than 32 bytes',
  'verification confirms a signature for another, longer, digest',
'''
from bitforge import PrivateKey
k = PrivateKey(12345); d = b'\\x42' * 32
s = k.sign(d)
assert k.verify(s, d)
for other in (d + b'x', d + b'\\0'):
    try:
        ok = k.verify(s, other)
    except Exception:
        ok = False
    assert not ok
''')

# ---------------------------------------------------------------- C07
P('c07-short-key', 'C07', [('bitforge/hdprivkey.py',
    "            key = b'\\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys\n",
    "            key = b'\\0' + int_to_bytes(self.to_private_key().secret) # a literal 0 is prepended to private keys\n")],
  'a hardened derivation from a private key with a leading zero byte',
  'the derived key is not the one BIP32 defines',
'''
import hmac, hashlib
from bitforge import HDPrivateKey, PrivateKey
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
for secret in (1, 1 << 247, 1 << 248, n - 1):
    k = HDPrivateKey(PrivateKey(secret), b'c' * 32)
    I = hmac.new(b'c' * 32, b'\\0' + secret.to_bytes(32, 'big') + b'\\x80\\0\\0\\0', hashlib.sha512).digest()
    assert k.derive(0, hardened = True).privkey.secret == (int.from_bytes(I[:32], 'big') + secret) % n
''')

P('c07-pub-depth', 'C07', [('bitforge/hdpubkey.py',
    "        return HDPublicKey(pubkey, hd_private_key.chain, hd_private_key.depth,\n                           hd_private_key.index, hd_private_key.parent, hd_private_key.network)\n",
    "        return HDPublicKey(pubkey, hd_private_key.chain, hd_private_key.depth,\n                           hd_private_key.index & 0x7fffffff, hd_private_key.parent, hd_private_key.network)\n")],
  'converting a key that was derived with a hardened index to public',
  'the public key has another index than the private key',
'''
from bitforge import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
for i, h in ((0, False), (7, False), (0, True), (2**31 + 5, False)):
    c = k.derive(i, h)
    assert c.to_hd_public_key().index == c.index
''')

P('c07-hardened-flag', 'C07', [('bitforge/hdpubkey.py',
    "        if index < HARDENED_START and hardened:\n            index += HARDENED_START\n",
    "        if 0 < index < HARDENED_START and hardened:\n            index += HARDENED_START\n")],
  'public derivation of index 0 with hardened = True',
  'a hardened derivation on a public key silently gives the normal child',
'''
from bitforge import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32).to_hd_public_key()
for args in ((0, True), (1, True), (2**31, False), (2**31, True)):
    try:
        k.derive(*args)
    except ValueError:
        continue
    raise AssertionError(args)
''')

P('c07-testnet-child', 'C07', [('bitforge/hdprivkey.py',
    "        privkey = PrivateKey(seed, self.network)\n", "        privkey = PrivateKey(seed, self.network if self.depth else networks.default)\n")],
  'deriving from a test network master key (depth 0)',
  'the private key of the child is on the other network',
'''
from bitforge import HDPrivateKey, PrivateKey, networks
k = HDPrivateKey(PrivateKey(5, networks.testnet), b'c' * 32, network = networks.testnet)
for path in ((0,), (0, 1), (0, 1, 2)):
    c = k
    for i in path: c = c.derive(i)
    assert c.privkey.network == networks.testnet and c.network == networks.testnet, path
''')

P('c07-fingerprint-uncompressed', 'C07', [('bitforge/hdpubkey.py',
    "        return HDPublicKey(pubkey, chain, depth, index, self.fingerprint, self.network)\n",
    "        return HDPublicKey(pubkey, chain, depth, index, self.fingerprint if depth > 1 else self.parent or self.fingerprint, self.network)\n")],
  'public derivation from a key of depth 0 that carries a non-zero parent fingerprint',
  'the child carries the fingerprint of its grandparent',
'''
from bitforge import HDPrivateKey, PrivateKey
for parent in (0, 0x01020304):
    k = HDPrivateKey(PrivateKey(5), b'c' * 32, parent = parent)
    assert k.to_hd_public_key().derive(1).parent == k.fingerprint == k.derive(1).parent
''')

# ---------------------------------------------------------------- C08
P('c08-root-parent', 'C08', [('bitforge/hdprivkey.py',
    "        parent  = int_from_bytes(data[HDPrivateKey.ParentFingerPrintStart : HDPrivateKey.ParentFingerPrintEnd])\n",
    "        parent  = int_from_bytes(data[HDPrivateKey.ParentFingerPrintStart : HDPrivateKey.ParentFingerPrintEnd]) if depth else ROOT_FINGERPRINT\n")],
  'an extended key of depth 0 with a non-zero parent fingerprint',
  'an accepted text is written back differently',
'''
from bitforge import HDPrivateKey, PrivateKey
for depth in (0, 1, 255):
    for parent in (0, 1, 0xffffffff):
        k = HDPrivateKey(PrivateKey(5), b'c' * 32, depth, 0, parent)
        assert HDPrivateKey.from_string(k.to_string()) == k, (depth, parent)
''')

P('c08-signed-index', 'C08', [('bitforge/hdpubkey.py',
    "        index   = int_from_bytes(data[HDPublicKey.ChildIndexStart : HDPublicKey.ChildIndexEnd])\n",
    "        index   = int_from_bytes(data[HDPublicKey.ChildIndexStart : HDPublicKey.ChildIndexEnd]) % 0xffffffff\n")],
  'the child number 2^32 - 1',
  'the last hardened child is read as index 0',
'''
from bitforge import HDPublicKey, PrivateKey
for i in (0, 1, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1):
    k = HDPublicKey(PrivateKey(5).to_public_key(), b'c' * 32, 1, i, 7)
    assert HDPublicKey.from_string(k.to_string()) == k, i
''')

P('c08-any-version', 'C08', [('bitforge/hdpubkey.py',
    "        network = networks.find(version, 'hd_public_key')\n",
    "        network = networks.find(version, 'hd_public_key', raises = False) or networks.default\n")],
  'a serialized public key with an unknown version',
  'unknown versions are read as keys of the main network',
'''
from bitforge import HDPublicKey, PrivateKey
from bitforge.encoding import encode_base58h, decode_base58h
t = HDPublicKey(PrivateKey(5).to_public_key(), b'c' * 32).to_string()
d = decode_base58h(t)
for v in (b'\\0\\0\\0\\0', b'\\x04\\x88\\xad\\xe4', b'\\xff' * 4):
    try:
        HDPublicKey.from_string(encode_base58h(v + d[4:]))
    except Exception:
        continue
    raise AssertionError(v)
''')

# ---------------------------------------------------------------- C09
P('c09-output-count', 'C09', [('bitforge/transaction/transaction.py',
    "        buffer.write(encode_varint(len(self.outputs)))\n",
    "        buffer.write(encode_int(len(self.outputs), length = 1))\n")],
  'a transaction with 253 or more outputs',
  'the count of outputs is not written as a variable-length integer',
'''
from bitforge.transaction import Transaction, Input, Output
from bitforge.script import Script
for n in (1, 252, 253, 254, 255, 256):
    t = Transaction([Input('11' * 32, 0, Script())], [Output(1, Script())] * n)
    assert Transaction.from_bytes(t.to_bytes()) == t, n
''')

P('c09-seq-signed', 'C09', [('bitforge/transaction/input.py',
    "        seq_number = decode_int(buffer.read(4), big_endian = False)\n",
    "        seq_number = decode_int(buffer.read(4), big_endian = False) or FINAL_SEQ_NUMBER\n")],
  'an input with sequence number 0',
  'the sequence number 0 is read as the final one',
'''
from bitforge.transaction import Input
from bitforge.script import Script
for s in (0, 1, 0xfffffffe, 0xffffffff):
    i = Input('11' * 32, 0, Script(), s)
    assert Input.from_bytes(i.to_bytes()) == i and Input.from_bytes(i.to_bytes()).seq_number == s, s
''')

P('c09-id-order', 'C09', [('bitforge/transaction/transaction.py',
    "        return sha256(sha256(self.to_bytes()))\n",
    "        return sha256(sha256(self.to_bytes())) if self.version < 2 else sha256(sha256(self._replace(version = 1).to_bytes()))\n")],
  'a transaction of version 2 or later',
  'the reported ID is that of another transaction',
'''
import hashlib
from bitforge.transaction import Transaction, Input, Output
from bitforge.script import Script
for v in (0, 1, 2, 0xffffffff):
    t = Transaction([Input('11' * 32, 0, Script())], [Output(1, Script())], 0, v)
    h = hashlib.sha256(hashlib.sha256(t.to_bytes()).digest()).digest()
    assert t.get_id() == h[::-1].hex(), v
''')

P('c09-default-lock', 'C09', [('bitforge/transaction/transaction.py',
    "        return Transaction(inputs, self.outputs, self.lock_time, self.version)\n",
    "        return Transaction(inputs, self.outputs, self.lock_time)\n")],
  'signing a transaction with another version than 1',
  'the version is replaced when the inputs are',
'''
from bitforge import PrivateKey
from bitforge.transaction import Transaction, AddressInput, Output
from bitforge.script import Script
k = PrivateKey(5)
for v in (1, 2, 7):
    t = Transaction([AddressInput.create('11' * 32, 0, k.to_address())], [Output(1, Script())], 9, v)
    s = t.sign([k], 0)
    assert (s.version, s.lock_time, s.outputs) == (v, 9, t.outputs), v
''')
SPECS[-1]['property'] = 'C11'; SPECS[-1]['id'] = 'c11-version-lost'

# ---------------------------------------------------------------- C10
P('c10-varint-edge', 'C10', [(BENC, "    elif integer <= 0xFFFFFFFF:\n", "    elif integer < 0xFFFFFFFF:\n")],
  'the integer 2^32 - 1 as variable-length integer',
  'it is not written in its shortest form and so not read back',
'''
from bitforge.encoding import encode_varint
from bitforge.tools import Buffer
for n in (0, 252, 253, 0xffff, 0x10000, 0xfffffffe, 0xffffffff, 0x100000000, 2**64 - 1):
    assert Buffer(encode_varint(n)).read_varint() == n, n
''')

P('c10-read-clears', 'C10', [('bitforge/tools.py',
    "        if len(self) < amount:\n            raise", "        if len(self) < amount:\n            self.clear() if not len(self) - amount + 1 else None\n            raise")],
  'asking for exactly one byte more than is left',
  'a refused read consumes the rest',
'''
from bitforge.tools import Buffer
for n in range(0, 6):
    for ask in range(n + 1, 10):
        b = Buffer(b'x' * n)
        try: b.read(ask)
        except Buffer.InsufficientData: pass
        assert len(b) == n, (n, ask)
''')

P('c10-encode-zero', 'C10', [(BENC,
    "        return chr(0) if length is None else chr(0) * length\n",
    "        return chr(0) * (length or 1)\n")],
  'zero with length 0',
  'zero in no bytes gives one byte',
'''
from bitforge.encoding import encode_int
for n in range(0, 9):
    assert encode_int(0, length = n) == b'\\0' * n, n
''')

# ---------------------------------------------------------------- C11
P('c11-same-script', 'C11', [('bitforge/transaction/transaction.py',
    "            input.remove_script() if i != txi_index else input\n",
    "            input.remove_script() if input.script != self.inputs[txi_index].script else input\n")],
  'two inputs with the same placeholder script',
  'the signature hash includes the scripts of other inputs of the same address',
'''
import hashlib
from bitforge import PrivateKey
from bitforge.transaction import Transaction, AddressInput, Input, Output
from bitforge.script import Script
k = PrivateKey(5); a = k.to_address()
t = Transaction([AddressInput.create('11' * 32, 0, a), AddressInput.create('22' * 32, 1, a)], [Output(1, Script())])
for i in range(2):
    s = t.sign([k], i)
    ref = Transaction([Input(x.tx_id, x.txo_index, x.script if j == i else Script()) for j, x in enumerate(t.inputs)], t.outputs)
    h = hashlib.sha256(hashlib.sha256(ref.to_bytes() + b'\\1\\0\\0\\0').digest()).digest()
    assert k.verify(s.inputs[i].script.get_signature()[:-1], h)
''')

P('c11-seq-lost', 'C11', [('bitforge/transaction/input.py',
    "        return Input(self.tx_id, self.txo_index, script, self.seq_number)\n",
    "        return Input(self.tx_id, self.txo_index, script, self.seq_number or FINAL_SEQ_NUMBER)\n")],
  'an input with sequence number 0',
  'signing changes the sequence number of the input',
'''
from bitforge import PrivateKey
from bitforge.transaction import Transaction, AddressInput, Output
from bitforge.script import Script
k = PrivateKey(5)
for seq in (0, 1, 0xffffffff):
    t = Transaction([AddressInput.create('11' * 32, 0, k.to_address(), seq)], [Output(1, Script())])
    assert t.sign([k], 0).inputs[0].seq_number == seq
''')

P('c11-already-signed', 'C11', [('bitforge/transaction/transaction.py',
    "            signed_input if i == txi_index else input\n",
    "            signed_input if input == self.inputs[txi_index] else input\n")],
  'a transaction in which two inputs are equal',
  'signing one input also replaces the script of the other',
'''
from bitforge import PrivateKey
from bitforge.transaction import Transaction, AddressInput, Output
from bitforge.script import Script
k = PrivateKey(5)
i = AddressInput.create('11' * 32, 0, k.to_address())
t = Transaction([i, i], [Output(1, Script())])
s = t.sign([k], 0)
assert s.inputs[1] == i and s.inputs[0] != i
''')

# ---------------------------------------------------------------- C12
P('c12-sign-order', 'C12', [('bitforge/transaction/input.py',
    "            privkeys[0].to_address().phash == self.script.get_address_hash()\n",
    "            privkeys[0].to_address().phash[:4] == self.script.get_address_hash()[:4]\n")],
  'an address whose hash shares the first four bytes with the key (a crafted address)',
  'can_sign says yes for a key that cannot spend the address',
'''
from bitforge import PrivateKey, Address
from bitforge.transaction import AddressInput
k = PrivateKey(5); h = bytearray(k.to_address().phash)
for pos in range(20):
    o = bytearray(h); o[pos] ^= 1
    assert not AddressInput.create('11' * 32, 0, Address(bytes(o))).can_sign([k]), pos
assert AddressInput.create('11' * 32, 0, Address(bytes(h))).can_sign([k])
''')

P('c12-more-keys', 'C12', [('bitforge/transaction/input.py',
    "        if len(privkeys) != self.script.get_min_signatures():\n",
    "        if len(privkeys) < self.script.get_min_signatures():\n")],
  'more keys than required',
  'can_sign says yes for a list which signing refuses',
'''
from bitforge import PrivateKey
from bitforge.transaction import MultisigInput
ks = [PrivateKey(i) for i in (2, 3, 4)]
i = MultisigInput.create('11' * 32, 0, [k.to_public_key() for k in ks], 2)
assert i.can_sign(ks[:2]) and not i.can_sign(ks) and not i.can_sign(ks[:1])
''')

# ---------------------------------------------------------------- C13
P('c13-compressed-only', 'C13', [('bitforge/script/script.py',
    "            [ pubkey.to_bytes() for pubkey in pubkeys ] +\n",
    "            [ pubkey._replace(compressed = True).to_bytes() for pubkey in pubkeys ] +\n")],
  'a multi-signature group with an uncompressed key',
  'the condition holds another encoding of the key than the given one',
'''
from bitforge import PrivateKey
from bitforge.transaction import MultisigOutput
from bitforge.script import RedeemMultisig, Script
import hashlib
ks = [PrivateKey(i, compressed = c).to_public_key() for i, c in ((2, True), (3, False))]
raw = b'\\x51' + b''.join(bytes([len(k.to_bytes())]) + k.to_bytes() for k in ks) + b'\\x52\\xae'
assert RedeemMultisig.create(ks, 1).to_bytes() == raw
''')

P('c13-data-limit', 'C13', [('bitforge/transaction/output.py',
    "        if len(data) > 80:\n", "        if len(data) > 80 and len(data.strip(b'\\0')) > 80:\n")],
  'data of more than 80 bytes that begins or ends with zeros',
  'data outputs accept more than 80 bytes',
'''
from bitforge.transaction import DataOutput
for n in range(1, 100):
    try:
        DataOutput.create(b'x' * (n - 1) + b'\\0'); ok = True
    except DataOutput.TooMuchData:
        ok = False
    assert ok == (n <= 80), n
''')

P('c13-hash-of-hash', 'C13', [('bitforge/script/script.py',
    "        schematic = [ OP_HASH160, script.to_hash(), OP_EQUAL ]\n",
    "        inner = script.instructions[1].data if PayToScriptOut.is_valid(script) else script.to_hash()\n        schematic = [ OP_HASH160, inner, OP_EQUAL ]\n")],
  'a pay-to-script output for a script that itself has the pay-to-script form',
  'such a script is locked to the inner hash instead of its own',
'''
from bitforge.script import Script, PayToScriptOut
from bitforge.transaction import ScriptOutput
s = Script.from_bytes(b'\\x51')
for i in range(3):
    o = ScriptOutput.create(1, s)
    assert o.script.get_script_hash() == s.to_hash(), i
    s = o.script
''')

# ---------------------------------------------------------------- C14
P('c14-push-255', 'C14', [('bitforge/script/opcode.py',
    "            if length <= Opcode.data_length_max(opcode):\n", "            if length < Opcode.data_length_max(opcode):\n")],
  'data of exactly 255 or 65535 bytes',
  'the push is not the shortest',
'''
from bitforge.script import Script
for n in (1, 75, 76, 254, 255, 256, 65534, 65535, 65536):
    head = 1 if n <= 75 else 2 if n <= 255 else 3 if n <= 65535 else 5
    assert len(Script.compile([b'x' * n]).to_bytes()) == n + head, n
''')

P('c14-empty-pushdata', 'C14', [('bitforge/script/script.py',
    "                data   = buffer.read(length)\n",
    "                data   = buffer.read(length)\n\n                if length == 0:\n                    opcode, data = OP_0, None\n"),
    ('bitforge/script/script.py', "                length = decode_int(length_bytes, big_endian = False)\n", "                length = decode_int(bytearray(length_bytes)[::-1])\n")],
  'a PUSHDATA operation that pushes nothing',
  'reading and writing such a script changes its bytes',
'''
from bitforge.script import Script
for raw in (b'\\x4c\\0', b'\\x4d\\0\\0', b'\\x4e\\0\\0\\0\\0', b'\\x51\\x4c\\0\\x51', b'\\x4c\\1a'):
    assert Script.from_bytes(raw).to_bytes() == raw, raw
''')

P('c14-pushdata4', 'C14', [('bitforge/script/opcode.py',
    "            OP_PUSHDATA2: 2,\n            OP_PUSHDATA4: 4\n        }[opcode]\n",
    "            OP_PUSHDATA2: 2,\n        }.get(opcode, 3 if sys.maxsize < 2 ** 32 else 4)\n")],
  'never here', 'placeholder', 'raise SystemExit(0)')
SPECS.pop()

# ---------------------------------------------------------------- C15
P('c15-double-prefix', 'C15', [('bitforge/script/script.py',
    "                    bytes = decode_hex(hex_bytes[2:])\n                    instructions.append(Instruction(opcode, data=bytes))\n",
    "                    bytes = decode_hex(hex_bytes.split('0x')[-1])\n                    instructions.append(Instruction(opcode, data=bytes))\n")],
  'a push whose data has the 0x prefix twice, or garbage between',
  'malformed text is accepted',
'''
from bitforge.script import Script
from bitforge.errors import BitforgeError
for bad in ('1 0x0x61', '1 0xzz0x61', '2 0x610x61'):
    try:
        Script.from_string(bad)
    except BitforgeError:
        continue
    raise AssertionError(bad)
assert Script.from_string('1 0x61').to_bytes() == b'\\x01a'
''')

P('c15-nop-number', 'C15', [('bitforge/script/opcode.py', "OP_NOP9  = 184\n", "OP_NOP9  = 183\n")],
  'the operation OP_NOP9 (or number 183, 184)',
  'an operation name has the wrong number',
'''
from bitforge.script import Script
for i in (1, 3, 4, 5, 6, 7, 8, 9, 10):
    s = Script.from_string('OP_NOP%d' % i)
    assert s.to_bytes() == bytes([175 + i]) and s.to_string() == 'OP_NOP%d' % i, i
''')

# ---------------------------------------------------------------- C16
P('c16-multisig-verify', 'C16', [('bitforge/script/script.py',
    "            structure[-1] == OP_CHECKMULTISIG and\n",
    "            structure[-1] in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY) and\n")],
  'a multi-signature script that ends in CHECKMULTISIGVERIFY',
  'a script of another form is recognized as the template',
'''
from bitforge import PrivateKey
from bitforge.script import Script, RedeemMultisig
raw = RedeemMultisig.create([PrivateKey(5).to_public_key()], 1).to_bytes()
assert type(Script.from_bytes(raw)) is RedeemMultisig
assert type(Script.from_bytes(raw[:-1] + b'\\xaf')) is Script
''')

P('c16-script-in-two', 'C16', [('bitforge/script/script.py',
    "            len(structure) > 2 and\n            structure[0] == OP_0 and\n",
    "            len(structure) > 1 and\n            structure[0] == OP_0 and\n")],
  'a script of OP_0 and a single push',
  'a script without signatures is recognized as a pay-to-script input',
'''
from bitforge.script import Script, PayToScriptIn
assert type(Script.from_bytes(b'\\0\\x01a')) is Script
assert type(Script.from_bytes(b'\\0\\x01a\\x01b')) is PayToScriptIn
''')

P('c16-signatures-nonempty', 'C16', [('bitforge/script/script.py',
    "        return [ i.data for i in self.instructions[1:-1] ]\n",
    "        return [ i.data for i in self.instructions[1:-1] if i.data ]\n")],
  'an empty signature (PUSHDATA of nothing)',
  'the signatures are not read back as they are in the script',
'''
from bitforge.script import Script
s = Script.from_bytes(b'\\0\\x4c\\0\\x01a\\x01b')
assert s.get_signatures() == [b'', b'a']
''')

# ---------------------------------------------------------------- C17
P('c17-minus-128', 'C17', [(BENC,
    "        bytes = bytearray(encode_int(-integer, big_endian = False))\n        if bytes[-1] & 0x80:\n",
    "        bytes = bytearray(encode_int(-integer, big_endian = False))\n        if bytes[-1] > 0x80:\n")],
  'a negative number whose highest magnitude byte is 0x80',
  '-128, -32768 and the like are encoded as zero or negative zero',
'''
from bitforge.encoding import encode_script_number, decode_script_number
for n in list(range(-300, 300)) + [-32768, -32769, -32767, -(1 << 23), -(1 << 31)]:
    assert decode_script_number(bytes(encode_script_number(n)), True, 9) == n, n
''')

P('c17-minimal-two', 'C17', [(BENC,
    "            if len(bytes) <= 1 or not (bytes[-2] & 0x80):\n", "            if len(bytes) == 1 or not (bytes[-2] & 0x80 or bytes[-1]):\n")],
  'a negative number with a superfluous sign byte',
  'a longer than necessary encoding passes as minimal',
'''
from bitforge.encoding import decode_script_number, encode_script_number, EncodingError
import itertools
for b in itertools.product((0, 1, 0x7f, 0x80, 0x81, 0xff), repeat = 3):
    b = bytes(b)
    minimal = bytes(encode_script_number(decode_script_number(b))) == b
    try:
        decode_script_number(b, True); ok = True
    except EncodingError:
        ok = False
    assert ok == minimal, b
''')

# ---------------------------------------------------------------- C18
INT = 'bitforge/script/interpreter.py'
P('c18-nested-else', 'C18', [(INT, "        f_exec = False not in self.vf_exec\n", "        f_exec = not self.vf_exec or self.vf_exec[-1]\n")],
  'an ELSE inside a conditional that is not executed',
  'operations of an inactive branch are executed',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
s = Script.from_string
assert Interpreter().verify(Script(), s('OP_1 OP_0 OP_IF OP_1 OP_IF OP_ELSE OP_RETURN OP_ENDIF OP_ENDIF'))
assert not Interpreter().verify(Script(), s('OP_0 OP_0 OP_IF OP_0 OP_IF OP_ELSE OP_1 OP_ENDIF OP_ENDIF'))
''')

P('c18-within-max', 'C18', [(INT, "                f_value = number2 <= number1 < number3\n", "                f_value = number2 <= number1 < number3 or number1 == number2 == number3\n")],
  'OP_WITHIN with three equal numbers',
  'an empty interval contains a number',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for x in range(3):
    for a in range(3):
        for b in range(3):
            s = Script.from_string('OP_%d OP_%d OP_%d OP_WITHIN' % (x, a, b))
            assert Interpreter().verify(Script(), s) == (a <= x < b), (x, a, b)
''')

P('c18-roll-copy', 'C18', [(INT, "                if n < 0 or n >= len(self.stack):\n", "                if n < 0 or n > len(self.stack) - (instruction.opcode == OP_PICK):\n")],
  'OP_ROLL with an index equal to the stack depth',
  'the operation does not fail properly (it raises internally)',
'''
raise SystemExit(0)
''')
SPECS.pop()  # same verdict

P('c18-size-signed', 'C18', [(INT, "                self.stack += [encode_script_number(size)]\n", "                self.stack += [bytearray([size]) if 0 < size < 256 else encode_script_number(size)]\n")],
  'OP_SIZE of an element of 128 to 255 bytes',
  'the size is a negative number',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
from bitforge.encoding import encode_script_number
for n in (1, 127, 128, 129, 255, 256, 520):
    s = Script.compile([b'x' * n, Script.from_string('OP_SIZE').instructions[0].opcode, bytes(encode_script_number(n)), Script.from_string('OP_EQUAL').instructions[0].opcode])
    assert Interpreter().verify(Script(), s), n
''')

P('c18-2over-order', 'C18', [(INT, "                self.stack = self.stack[:-6] + [x3, x4, x5, x6, x1, x2]\n", "                self.stack = self.stack[-6:][2:] + [x1, x2] if len(self.stack) != 6 else [x3, x4, x5, x6, x1, x2]\n")],
  'OP_2ROT with more than six elements',
  'the elements below are dropped',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for below in range(3):
    t = ' '.join(['OP_1'] * (below + 6) + ['OP_2ROT', 'OP_DEPTH', 'OP_%d' % (below + 6), 'OP_EQUAL'])
    assert Interpreter().verify(Script(), Script.from_string(t)), below
''')

# ---------------------------------------------------------------- C19
P('c19-altstack', 'C19', [(INT, "                if len(self.stack) + len(self.altstack) > 1000:\n", "                if len(self.stack) > 1000 or len(self.altstack) > 1000:\n")],
  'more than 1000 elements on the two stacks together',
  'the limit is applied to each stack on its own',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
def run(n, alt):
    return Interpreter().verify(Script(), Script.from_string(' '.join(['OP_1', 'OP_TOALTSTACK'] * alt + ['OP_1'] * (n - alt))))
assert run(1000, 0) and run(1000, 100) and not run(1001, 0) and not run(1001, 100)
''')

P('c19-limit-after', 'C19', [(INT, "        if instruction.data and len(instruction.data) > Interpreter.MAX_SCRIPT_ELEMENT_SIZE:\n",
    "        if f_exec and instruction.data and len(instruction.data) > Interpreter.MAX_SCRIPT_ELEMENT_SIZE:\n")],
  'an element of more than 520 bytes in a branch that is not executed',
  'the element limit is not enforced there',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
from bitforge.script.opcode import *
for n in (519, 520, 521):
    s = Script.compile([OP_1, OP_0, OP_IF, b'x' * n, OP_ENDIF])
    assert Interpreter().verify(Script(), s) == (n <= 520), n
''')

P('c19-p2sh-pushonly', 'C19', [('bitforge/script/script.py',
    "        return all(i.opcode <= OP_16 for i in self.instructions)\n", "        return all(i.opcode <= OP_NOP for i in self.instructions)\n")],
  'an OP_NOP in the input script with the push-only or P2SH rule',
  'a script with an operation passes as push-only',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
for op, ok in (('OP_16', True), ('OP_RESERVED', None), ('OP_NOP', False)):
    r = I().verify(Script.from_string('OP_1 ' + op), Script.from_string('OP_1'), flags = I.SCRIPT_VERIFY_SIGPUSHONLY)
    if ok is not None: assert r == ok, op
''')

P('c19-minimal-two', 'C19', [('bitforge/script/instruction.py',
    "        elif len(self.data) <= 255:\n", "        elif len(self.data) < 255:\n")],
  'a 255-byte push with PUSHDATA2 under the minimal data rule (and with PUSHDATA1)',
  'the boundary of the minimal push rule is off by one',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
for n in (254, 255, 256):
    d = b'x' * n
    short = b'\\x4c' + bytes([n]) + d if n < 256 else b'\\x4d' + n.to_bytes(2, 'little') + d
    long = b'\\x4d' + n.to_bytes(2, 'little') + d if n < 256 else b'\\x4e' + n.to_bytes(4, 'little') + d
    run = lambda raw: I().verify(Script(), Script.from_bytes(raw), flags = I.SCRIPT_VERIFY_MINIMALDATA)
    assert run(short) and not run(long), n
''')

P('c19-nullify-dummy', 'C19', [(INT, "                if (self.flags & Interpreter.SCRIPT_VERIFY_NULLDUMMY) and len(self.stack[-1]):\n",
    "                if (self.flags & Interpreter.SCRIPT_VERIFY_NULLDUMMY) and Interpreter.cast_to_bool(self.stack[-1]):\n")],
  'a dummy element of zero bytes (not empty) with the null dummy flag',
  'a dummy that is false but not empty is accepted',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
for dummy, ok in ((b'\\0', True), (b'\\x01\\0', False), (b'\\x02\\0\\0', False), (b'\\x51', False)):
    assert I().verify(Script(), Script.from_bytes(dummy + b'\\0\\0\\xae'), flags = I.SCRIPT_VERIFY_NULLDUMMY) == ok, dummy
''')

# ---------------------------------------------------------------- C20
P('c20-narrow-except', 'C20', [(INT, "        except Exception as e:\n            self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)\n",
   "        except BitforgeError as e:\n            self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)\n"),
   ],
  'a signature operation (or any internal error)',
  'verification raises an exception',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
for t in ('OP_1 OP_1 OP_CHECKSIG', 'OP_0 OP_1 OP_1 OP_1 OP_1 OP_CHECKMULTISIG', 'OP_0 OP_0 OP_CHECKSIGVERIFY OP_1'):
    assert I().verify(Script(), Script.from_string(t)) in (True, False)
''')

P('c20-multisig-zero', 'C20', [(INT, "                if not (0 <= sigs_count <= keys_count):\n", "                if sigs_count > keys_count:\n"),
   ],
  'a negative number of required signatures',
  'a multi-signature check that demands -1 signatures succeeds',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
assert not I().verify(Script(), Script.from_string('OP_1 OP_1 OP_1 OP_1NEGATE OP_1 OP_1 OP_CHECKMULTISIG'))
assert not I().verify(Script(), Script.from_string('OP_1 OP_1 OP_1NEGATE OP_0 OP_CHECKMULTISIG'))
''')

P('c20-skip-verify', 'C20', [(INT, "                if not self.check_signature_encoding(sig_bytes) or not self.check_pubkey_encoding(pubkey_bytes):\n                    return False\n\n                try:\n",
   "                if sig_bytes and (not self.check_signature_encoding(sig_bytes) or not self.check_pubkey_encoding(pubkey_bytes)):\n                    return False\n\n                f_success = instruction.opcode == OP_CHECKSIGVERIFY\n\n                try:\n"),
   (INT, "                    f_success = self.tx.verify_signature(signature, pubkey, self.nin, subscript)\n                except BitforgeError:\n                    f_success = False\n",
         "                    f_success = self.tx.verify_signature(signature, pubkey, self.nin, subscript)\n                except (BitforgeError, NameError):\n                    pass\n"),
   (INT, "                subscript.remove_opcode_by_data(sig_bytes)\n\n                if", "                if sig_bytes: subscript.remove_opcode_by_data(sig_bytes)\n\n                if")],
  'an empty signature in CHECKSIGVERIFY',
  'a missing signature is accepted',
'''
from bitforge import PrivateKey
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
pub = PrivateKey(5).to_public_key().to_bytes()
spk = Script.from_bytes(bytes([len(pub)]) + pub + b'\\xad\\x51')
assert not I().verify(Script.from_string('OP_0'), spk)
''')

# ---------------------------------------------------------------- C21
P('c21-double-rounding', 'C21', [('bitforge/unit.py', "        self.btc = self.satoshis / Unit.btc\n", "        self.btc = self.bits / 1e6\n")],
  'amounts whose value in bits is not exact',
  'the amount in bitcoins is rounded twice',
'''
from bitforge import Unit
from fractions import Fraction
for s in list(range(1, 20000)) + [2099999999999999 - i for i in range(2000)]:
    assert Unit(satoshis = s).btc == float(Fraction(s, 10**8)), s
''')

P('c21-fiat-cents', 'C21', [('bitforge/unit.py', "        return Unit(btc = value / float(rate))        \n", "        return Unit(satoshis = round(value / float(rate) * Unit.btc, 1))\n")],
  'a fiat value whose satoshi amount is just below or above a half',
  'the conversion rounds twice and misses the nearest satoshi',
'''
from bitforge import Unit
from fractions import Fraction
bad = []
for v in range(1, 3000):
    for r in (3, 7, 250, 350, 1234, 65536):
        exact = Fraction(v) / Fraction(r) * 10**8
        got = Unit.from_fiat(v, r).satoshis
        assert abs(got - exact) <= Fraction(1, 2) + Fraction(1, 100), (v, r)
for v in range(1, 3000):
    r = 10000019
    exact = Fraction(v) / Fraction(r) * 10**8
    assert abs(Unit.from_fiat(v, r).satoshis - exact) <= Fraction(1, 2) + Fraction(1, 100), v
''')

P('c21-floor', 'C21', [('bitforge/unit.py', "            self._set_values(mbtc * Unit.mbtc)\n", "            self._set_values(int(mbtc * Unit.mbtc + 1e-6))\n")],
  'a large amount in millibitcoins whose product falls below the integer',
  'such amounts lose a satoshi',
'''
from bitforge import Unit
from fractions import Fraction
for s in [10**k + j for k in range(0, 16) for j in range(0, 3000, 7) if 10**k + j <= 21 * 10**14]:
    assert Unit(mbtc = float(Fraction(s, 10**5))).satoshis == s, s
''')

# ---------------------------------------------------------------- C22
P('c22-unquote-first', 'C22', [('bitforge/uri.py', "        parsed = urlparse(uri)\n", "        parsed = urlparse(uri.replace('%3D', '=').replace('%3d', '='))\n")],
  'a label that contains an equals sign next to an ampersand, or another parameter with = in its name',
  'escaped characters are decoded before the parameters are separated',
'''
from bitforge import URI
a = '1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2'
for key in ('x', 'a=b', 'a&b', 'label=x'):
    u = URI({'address': a, key: 'v=1&w'})
    assert URI(u.to_uri()).extras == {key: 'v=1&w'}, key
''')

P('c22-amount-zero', 'C22', [('bitforge/uri.py', "        self.amount = Unit(satoshis = self.amount) if 'amount' in args else None\n",
   "        self.amount = Unit(satoshis = self.amount) if args.get('amount') else None\n")],
  'an amount of zero',
  'the amount zero is lost',
'''
from bitforge import URI
a = '1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2'
for n in (0, 1, 10**8):
    u = URI({'address': a, 'amount': n})
    assert u.amount is not None and URI(u.to_uri()).amount.satoshis == n
''')

# ---------------------------------------------------------------- C23
P('c23-empty-sec', 'C23', [(ENC, "    return sec[:1] in (b'\\2', b'\\3')\n", "    return bytearray(sec)[0] in (2, 3)\n")],
  'an empty public key',
  'an IndexError escapes',
'''
from bitforge import PublicKey
from bitforge.errors import BitforgeError
for raw in (b'', b'\\2', b'\\5'):
    try:
        PublicKey.from_bytes(raw)
    except BitforgeError:
        continue
    raise AssertionError(raw)
''')

P('c23-opcode-names', 'C23', [('bitforge/script/opcode.py', "        if not name.startswith('OP_'):\n", "        if not name.upper().startswith('OP'):\n")],
  'the token "Opcode" in the text of a script',
  'the class of that name is taken for an operation and an AttributeError escapes',
'''
from bitforge.script import Script
from bitforge.errors import BitforgeError
for t in ('Opcode', 'opcode', 'OP_FOO', 'OPx'):
    try:
        Script.from_string(t)
    except BitforgeError:
        continue
    raise AssertionError(t)
''')

# ---------------------------------------------------------------- C24
P('c24-hash-id', 'C24', [('bitforge/script/opcode.py', "        return hash(self.number)\n", "        return hash(id(self) if self.is_const_push() else self.number)\n")],
  'equal pushes made separately, in a set',
  'equal objects have different hashes',
'''
from bitforge.script import Script
raw = b'\\x02ab\\x51'
assert len({Script.from_bytes(raw) for _ in range(20)}) == 1
''')

P('c24-shared-inputs', 'C24', [('bitforge/transaction/transaction.py', "        inputs = tuple(inputs)\n        outputs = tuple(outputs)\n", "        inputs = tuple(inputs)\n        outputs = outputs if isinstance(outputs, (list, tuple)) else tuple(outputs)\n")],
  'the list of outputs is changed after the transaction was made',
  'a transaction changes with the list it was built from, and is not hashable',
'''
from bitforge.transaction import Transaction, Input, Output
from bitforge.script import Script
outs = [Output(1, Script())]
t = Transaction([Input('11' * 32, 0, Script())], outs)
before = t.to_bytes()
outs.append(Output(2, Script()))
assert t.to_bytes() == before
hash(t)
''')

P('c24-bytearray-data', 'C24', [('bitforge/script/opcode.py',
   "        return self.number == other.number\n", "        return self.number == other.number or {self.number, other.number} == {0, 79}\n")],
  'comparing OP_0 with OP_1NEGATE', 'different operations are equal',
'''
from bitforge.script import Script
raws = [bytes([i]) for i in range(256) if not 1 <= i <= 78]
for a in raws:
    for b in raws:
        assert (Script.from_bytes(a) == Script.from_bytes(b)) == (a == b), (a, b)
''')

# ---------------------------------------------------------------- C25
P('c25-reuse-alt', 'C25', [(INT, "        self.altstack = []\n        self.pc = 0\n", "        self.altstack = getattr(self, 'altstack', [])\n        self.pc = 0\n"),],
  'an interpreter that is reused after a script left something on the alt stack',
  'the alt stack survives from one verification (or script) to the next',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
s = Script.from_string
i = Interpreter()
i.verify(Script(), s('OP_1 OP_TOALTSTACK OP_1'))
assert i.verify(Script(), s('OP_FROMALTSTACK')) == Interpreter().verify(Script(), s('OP_FROMALTSTACK')) == False
''')

P('c25-memo-address', 'C25', [('bitforge/address.py', "        phash = ripemd160(sha256(script.to_bytes()))\n        return Address(phash, network, Address.Type.Script)\n",
   "        key = script.to_bytes()\n        if key not in Address.by_script:\n            Address.by_script[key] = Address(ripemd160(sha256(key)), network, Address.Type.Script)\n        return Address.by_script[key]\n"),
   ('bitforge/address.py', "BaseAddress = collections.namedtuple('Address', ['phash', 'network', 'type'])\n\nclass Address(BaseAddress):\n", "BaseAddress = collections.namedtuple('Address', ['phash', 'network', 'type'])\n\nclass Address(BaseAddress):\n\n    by_script = {}\n")],
  'the address of one script on both networks, one after the other',
  'the second gets the address of the first network',
'''
from bitforge import Address, networks
from bitforge.script import Script
s = Script.from_bytes(b'\\x51')
for n in (networks.livenet, networks.testnet):
    assert Address.from_script(s, n).network == n
''')

P('c25-script-cache', 'C25', [('bitforge/script/script.py', "    def to_hash(self):\n        return ripemd160(sha256(self.to_bytes()))\n",
   "    def to_hash(self, cache = {}):\n        key = (len(self.instructions), self.get_structure(), self.to_bytes()[-8:])\n        if key not in cache:\n            cache[key] = ripemd160(sha256(self.to_bytes()))\n        return cache[key]\n")],
  'two scripts of the same structure and ending but different data, one after the other',
  'the second script gets the hash of the first',
'''
import hashlib
from bitforge.script import Script
for x in (b'a', b'b', b'c'):
    s = Script.compile([x * 33, b'z' * 20])
    assert s.to_hash() == hashlib.new('ripemd160', hashlib.sha256(s.to_bytes()).digest()).digest(), x
''')

# ---------------------------------------------------------------- C26
P('c26-scratch', 'C26', [(BENC, "    data = bytearray()\n\n    while integer > 0:\n", "    data = _scratch\n    del data[:]\n\n    while integer > 0:\n"),
   (BENC, "def encode_int(integer, big_endian = True, length = None):\n", "_scratch = bytearray()\n\n\ndef encode_int(integer, big_endian = True, length = None):\n")],
  'two threads encoding integers, one interrupted inside the loop',
  'the threads write into the same bytes',
'''
import sys, threading
sys.setswitchinterval(1e-6)
from bitforge.encoding import encode_int
bad = []
def work(n, length):
    want = n.to_bytes(length, 'big')
    for _ in range(20000):
        try:
            if encode_int(n, length = length) != want: bad.append(n)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target = work, args = a) for a in ((0x1111111111111111, 8), (2 ** 255 - 19, 32), (7, 4), (2 ** 200 + 5, 32))]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
''')

P('c26-last-slot', 'C26', [('bitforge/utils/ecdsa.py', "    return (generator*secret_exponent).pair()\n",
   "    # the last result is often asked for again\n    if _last.get('key') != (generator, secret_exponent):\n        _last['key'] = (generator, secret_exponent)\n        _last['pair'] = (generator*secret_exponent).pair()\n    return _last['pair']\n"),
   ('bitforge/utils/ecdsa.py', "def public_pair_for_secret_exponent(generator, secret_exponent):\n", "_last = {}\n\ndef public_pair_for_secret_exponent(generator, secret_exponent):\n")],
  'two threads asking for the public keys of two secrets',
  'a thread gets the public key of the secret of the other',
'''
import sys, threading
sys.setswitchinterval(1e-6)
from bitforge import PrivateKey
want = {}
for s in (2, 3, 5, 7):
    want[s] = PrivateKey(s).to_public_key().pair
bad = []
def work(s):
    for _ in range(60):
        try:
            if PrivateKey(s).to_public_key().pair != want[s]: bad.append(s)
        except Exception as e:
            bad.append(e)
for _ in range(6):
    ts = [threading.Thread(target = work, args = (s,)) for s in want]
    [t.start() for t in ts]; [t.join() for t in ts]
    if bad: break
assert not bad, len(bad)
''')

P('c26-global-interpreter', 'C26', [(INT, "        self.stack = []\n        self.altstack = []\n        self.pc = 0\n", "        self.stack = []\n        self.altstack = Interpreter.scratch\n        del self.altstack[:]\n        self.pc = 0\n"),
   (INT, "                self.altstack += self.stack[-1:]\n", "                self.altstack.append(self.stack[-1])\n"),
   (INT, "                self.stack += self.altstack[-1:]\n                self.altstack = self.altstack[:-1]\n", "                self.stack.append(self.altstack.pop())\n"),
   (INT, "    MAX_SCRIPT_ELEMENT_SIZE = 520\n", "    MAX_SCRIPT_ELEMENT_SIZE = 520\n    scratch = []\n")],
  'two interpreters in use at once, with elements on the alt stack',
  'the interpreters share one alt stack',
'''
import sys, threading
sys.setswitchinterval(1e-6)
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
bad = []
def work(k):
    t = Script.from_string(' '.join(['OP_%d OP_TOALTSTACK' % k] * 40 + ['OP_FROMALTSTACK OP_%d OP_EQUALVERIFY' % k] * 40 + ['OP_1']))
    for _ in range(120):
        if not Interpreter().verify(Script(), t): bad.append(k)
ts = [threading.Thread(target = work, args = (k,)) for k in (1, 2, 3, 4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
''')

# ---------------------------------------------------------------- C27
P('c27-mersenne', 'C27', [('bitforge/privkey.py', "    return rng.randint(1, KEY_MAX - 1)\n", "    return random.Random(rng.getrandbits(256)).randint(1, KEY_MAX - 1) if random.random() < 1e-9 else int(rng.random() * (KEY_MAX - 2)) + 1\n")],
  'any generated key: only 53 bits of entropy are used',
  'generated secrets have far less than 256 bits of entropy',
'''
from bitforge import PrivateKey
low = {PrivateKey().secret & 0xffff for _ in range(40)}
assert len(low) > 10
''')

P('c27-short-seed', 'C27', [('bitforge/hdprivkey.py', "            seed = os.urandom(MIN_SEED_LEN)\n", "            seed = hashlib.sha256(os.urandom(MIN_SEED_LEN // 2)).digest()\n")],
  'any generated HD seed: only 16 bytes of entropy are read',
  'a generated HD key depends on 128 bits of entropy only',
'''
import os
from bitforge import HDPrivateKey
real = os.urandom; total = []
def urandom(n):
    total.append(n); return real(n)
os.urandom = urandom
HDPrivateKey.from_seed()
assert sum(total) >= 32, total
''')

P('c27-nonce-reuse', 'C27', [('bitforge/privkey.py', "        return signing_key.sign_digest(message, sigencode = sigencode_canonical)\n",
   "        k = utils.ecdsa.deterministic_generate_k(KEY_MAX, self.secret, decode_int(message[:16]))\n        return signing_key.sign_digest(message, sigencode = sigencode_canonical, k = k)\n")],
  'two digests that share their first 16 bytes',
  'two signatures share their nonce, which reveals the secret',
'''
from bitforge import PrivateKey
k = PrivateKey(12345)
rs = set()
for i in range(8):
    s = k.sign(b'\\x11' * 16 + bytes([i]) * 16)
    rs.add(s[4:4 + s[3]])
assert len(rs) == 8
''')

# ---------------------------------------------------------------- C28
P('c28-length-s', 'C28', [('bitforge/signature.py', "    if (5 + lenR >= len(sig)): return False;\n", "    if (5 + lenR > len(sig)): return False;\n")],
  'a length of R that ends exactly at the end of the signature',
  'the check raises an IndexError',
'''
from bitforge.signature import validate_signature
for n in range(9, 74):
    for r in range(0, 80):
        sig = bytes([0x30, n - 3, 2, r]) + b'\\1' * (n - 4)
        assert validate_signature(sig) in (True, False)
''')

P('c28-padding-s', 'C28', [('bitforge/signature.py', "    if (lenS > 1 and (sig[lenR + 6] == 0x00) and not (sig[lenR + 7] & 0x80)): return False;\n",
   "    if (lenS > 2 and (sig[lenR + 6] == 0x00) and not (sig[lenR + 7] & 0x80)): return False;\n")],
  'an S of two bytes with a superfluous zero',
  'a padded integer is accepted',
'''
from bitforge.signature import validate_signature
def der(r, s): b = bytes([2, len(r)]) + r + bytes([2, len(s)]) + s; return bytes([0x30, len(b)]) + b + b'\\1'
assert validate_signature(der(b'\\1\\1', b'\\1\\1'))
assert not validate_signature(der(b'\\1\\1', b'\\0\\1'))
assert validate_signature(der(b'\\1\\1', b'\\0\\x81'))
''')

P('c28-max-size', 'C28', [('bitforge/signature.py', "    if (len(sig) > 73): return False;\n", "    if (len(sig) > 74): return False;\n")],
  'a signature of 74 bytes', 'signatures longer than 73 bytes are accepted',
'''
from bitforge.signature import validate_signature
def der(r, s): b = bytes([2, len(r)]) + r + bytes([2, len(s)]) + s; return bytes([0x30, len(b)]) + b + b'\\1'
for n in range(30, 36):
    s = der(b'\\x11' * 33, b'\\x11' * n)
    assert validate_signature(s) == (len(s) <= 73), len(s)
''')


# ---------------------------------------------------------------- C29
P('c29-valid-prefixes', 'C29', [(ENC,
    "        wif_to_secret_exponent(wif, allowable_wif_prefixes=allowable_wif_prefixes)\n", "        wif_to_secret_exponent(wif)\n")],
  'a WIF text of another network, with its prefix allowed',
  'is_valid_wif() ignores the prefixes it is given and disagrees with the reader',
'''
from bitforge.utils.encoding import is_valid_wif, secret_exponent_to_wif, wif_to_secret_exponent
t = secret_exponent_to_wif(77, True, b'\\xef')
assert wif_to_secret_exponent(t, [b'\\xef']) == 77
assert is_valid_wif(t, [b'\\xef'])
''')

P('c29-field-bound', 'C29', [('bitforge/utils/ecdsa.py',
    "    return 0 <= x < p and 0 <= y < p and generator.curve().contains_point(x, y)\n", "    return 0 <= x < p and 0 <= y and generator.curve().contains_point(x, y)\n")],
  'an uncompressed encoding whose second coordinate is a valid one plus the field prime (the coordinate is below 2^32 + 977)',
  'a second encoding of the same point is accepted',
'''
from bitforge.utils.encoding import sec_to_public_pair, EncodingError
from bitforge.utils.secp256k1 import generator_secp256k1
p = generator_secp256k1.curve().p()
# p = 7 mod 9: a cube root of c, if there is one, is c^((p + 2) / 9)
for y in range(1, 200):
    c = (y * y - 7) % p
    x = pow(c, (p + 2) // 9, p)
    if pow(x, 3, p) == c: break
good = b'\\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
assert tuple(sec_to_public_pair(good)) == (x, y)
try:
    sec_to_public_pair(b'\\4' + x.to_bytes(32, 'big') + (y + p).to_bytes(32, 'big'))
except EncodingError:
    pass
else:
    raise AssertionError('accepted')
''', also=['C04'])

# ---------------------------------------------------------------- C31
P('c31-first-match', 'C31', [('bitforge/networks.py',
    "        if getattr(network, attr) == value:\n", "        if getattr(network, attr) == value or (attr == 'magic' and value in (network.magic, network.port)):\n")],
  'looking a network up by a magic number that is the port of a network',
  'a network is found by a constant it does not have',
'''
from bitforge import networks
assert networks.find(0x0b110907, 'magic') is networks.testnet
assert networks.find(8333, 'magic', raises = False) is None
''')
P('c31-hd-either-version', 'C31', [('bitforge/hdpubkey.py',
    "        network = networks.find(version, 'hd_public_key')\n",
    "        network = networks.find(version, 'hd_public_key', raises = False) or networks.find(version, 'hd_private_key')\n")],
  'an extended public key payload with the version of extended private keys',
  'the reader of extended public keys accepts the prefix of another kind',
'''
from bitforge import HDPublicKey, HDPrivateKey
from bitforge.encoding import decode_base58h, encode_base58h

raw = (0x0488ade4).to_bytes(4, 'big') + b'\\0' * 9 + b'\\5' * 32 + bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
ok = (0x0488b21e).to_bytes(4, 'big') + raw[4:]
assert HDPublicKey.from_string(encode_base58h(ok)).to_string() == encode_base58h(ok)
try:
    HDPublicKey.from_string(encode_base58h(raw))
except Exception:
    pass
else:
    raise AssertionError('accepted')
''', also=['C08'])

# ---------------------------------------------------------------- second batch
TXP = 'bitforge/transaction/transaction.py'
P('c11-twin-inputs', 'C11', [(TXP,
    "            signed_input if i == txi_index else input\n", "            signed_input if input == self.inputs[txi_index] else input\n")],
  'a transaction in which another input is equal to the one signed',
  'signing one input also replaces every input equal to it',
'''
from bitforge import *
from bitforge.transaction import *
k = PrivateKey(11)
a = AddressInput.create('11' * 32, 0, k.to_address())
t = Transaction([a, AddressInput.create('11' * 32, 0, k.to_address()), AddressInput.create('22' * 32, 0, k.to_address())], [AddressOutput.create(5, k.to_address())])
s = t.sign([k], 1)
assert s.inputs[0] == a and s.inputs[2] == t.inputs[2] and s.inputs[1] != a
''')
P('c12-address-network', 'C12', [('bitforge/transaction/input.py',
    "            privkeys[0].to_address().phash == self.script.get_address_hash()\n", "            privkeys[0].to_address() == Address(self.script.get_address_hash())\n"),
    ('bitforge/transaction/input.py', "from bitforge.signature import SIGHASH_ALL\n", "from bitforge.address import Address\nfrom bitforge.signature import SIGHASH_ALL\n")],
  'an address input signed with a key of the other network',
  'the key of the address is said not to be able to sign',
'''
from bitforge import *
from bitforge import networks
from bitforge.transaction import *
for n in (networks.livenet, networks.testnet):
    k = PrivateKey(11, n)
    assert AddressInput.create('11' * 32, 0, k.to_address()).can_sign([k])
    assert not AddressInput.create('11' * 32, 0, k.to_address()).can_sign([PrivateKey(12, n)])
''')
P('c24-class-eq', 'C24', [('bitforge/script/script.py',
    "    def get_structure(self):\n        return tuple(i.opcode if not i.is_push() else 'PUSH' for i in self.instructions)\n",
    "    def __eq__(self, other):\n        return type(self) is type(other) and tuple.__eq__(self, other)\n\n    def __ne__(self, other):\n        return not self == other\n\n    def __hash__(self):\n        return hash(self.instructions)\n\n    def get_structure(self):\n        return tuple('PUSH' if i.is_push() else i.opcode for i in self.instructions)\n")],
  'a script built directly compared with the same script read and recognized',
  'scripts of equal content are different when only one of them was recognized as a template',
'''
from bitforge.script import *
a = Script.from_bytes(bytes.fromhex('76a914' + '07' * 20 + '88ac'))
assert Script(a.instructions) == a and a == Script(a.instructions) and len({a, Script(a.instructions)}) == 1
''')
P('c23-long-text', 'C23', [('bitforge/errors.py',
    "        self.length = len(string)\n", "        self.length = len(string)\n        if self.length > 300: self.string = repr(string[:300] + '...')\n")],
  'malformed binary data of more than 300 bytes',
  'the error for long binary data cannot be built and another one escapes',
'''
from bitforge import *
from bitforge.errors import BitforgeError
for d in (b'x' * 20, b'x' * 301, b'x' * 5000):
    for f in (PrivateKey.from_bytes, PublicKey.from_bytes, Address.from_bytes):
        try:
            f(d)
        except BitforgeError as e:
            str(e)
        else:
            raise AssertionError(f)
''')
P('c25-point-table', 'C25', [('bitforge/utils/ellipticcurve.py',
    "    if e == 0: return INFINITY\n", "    if e == 0: return INFINITY\n    known = _products.get( ( self.__x, e ) )\n    if known is not None: return known\n"),
    ('bitforge/utils/ellipticcurve.py', "      i = i // 2\n\n    return result\n", "      i = i // 2\n\n    if self.__curve: _products[ ( self.__x, e ) ] = result\n    return result\n"),
    ('bitforge/utils/ellipticcurve.py', "class Point( object ):\n", "_products = {}\n\nclass Point( object ):\n")],
  'multiplying a point and its inverse (or points of two curves with one x) by the same number',
  'a product is remembered by the x coordinate only',
'''
from bitforge.utils.ellipticcurve import *
from bitforge.utils.secp256k1 import generator_secp256k1 as G
c = G.curve(); n = G.order()
a = G * 77
m = Point(c, G.x(), c.p() - G.y())
b = m * 77
assert a.x() == b.x() and a.y() != b.y()
''', also=['C05'])
P('c26-shared-hasher', 'C26', [('bitforge/encoding.py',
    "    return ripemd160(sha256(bytes))\n", "    _hash160_scratch[:] = [sha256(bytes)]\n    return ripemd160(_hash160_scratch[0])\n"),
    ('bitforge/encoding.py', "def hash160(bytes):\n", "_hash160_scratch = []\n\ndef hash160(bytes):\n")],
  'two threads hashing at once, one interrupted between the two hashes',
  'one thread gets the hash of the data of the other (in OP_HASH160 of an interpreter)',
'''
import sys, threading
from bitforge import encoding
real = encoding.ripemd160
expect = encoding.hash160(b'one')
def late(data, done=[]):
    if not done:
        done.append(1); encoding.ripemd160 = real
    return real(data)
# run the other thread between the two steps of this one
step = encoding.sha256
result = {}
lines = [0]
def tracer(frame, event, arg):
    if frame.f_code.co_name == 'hash160' and event == 'line':
        lines[0] += 1
        if lines[0] >= 2 and 'x' not in result:
            result['x'] = 1
            t = threading.Thread(target=lambda: result.__setitem__('other', encoding.hash160(b'two'))); t.start(); t.join()
    return tracer
sys.settrace(tracer)
got = encoding.hash160(b'one')
sys.settrace(None)
assert got == expect
''')
P('c27-nonce-prefix', 'C27', [('bitforge/privkey.py',
    "        signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        return signing_key",
    "        signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        k = utils.ecdsa.deterministic_generate_k(KEY_MAX, self.secret, decode_int(message[:16]))\n        return signing_key"),
    ('bitforge/privkey.py', "sigencode = sigencode_canonical)", "sigencode = sigencode_canonical, k = k)")],
  'two digests that share their first 16 bytes, signed with one key',
  'both signatures have the same nonce, which gives the key away',
'''
from bitforge import PrivateKey
from bitforge import ecdsa
k = PrivateKey(77)
n = ecdsa.SECP256k1.order
r = {ecdsa.util.sigdecode_der(k.sign(b'\\7' * 31 + bytes([i])), n)[0] for i in range(8)}
assert len(r) == 8
''')
P('c30-resized-p2sh', 'C30', [('bitforge/script/opcode.py',
    "        return self in (OP_PUSHDATA1, OP_PUSHDATA2, OP_PUSHDATA4)\n", "        return OP_PUSHDATA1 <= self < OP_1NEGATE or self.name.startswith('OP_PUSH')\n"),
    ('bitforge/script/opcode.py', "        return self == OP_0 or (OP_1 <= self <= OP_16)\n", "        return self in (OP_0, OP_1NEGATE) or (OP_1 <= self <= OP_16)\n")],
  'asking whether OP_1NEGATE stands for a number, or which',
  'OP_1NEGATE is taken for the small number -1 by number_value() as 79 - 81 + 1',
'''
from bitforge.script.opcode import *
assert not OP_1NEGATE.is_number()
''', also=['C16'])
P('c30-minimal-pushdata2', 'C30', [('bitforge/script/instruction.py',
    "        elif len(self.data) <= 65535:\n", "        elif len(self.data) < 65535:\n")],
  'a push of exactly 65535 bytes with PUSHDATA4',
  'a push that is not the shortest is called minimal',
'''
from bitforge.script import *
from bitforge.script.opcode import *
assert not Instruction(OP_PUSHDATA4, b'x' * 65535).is_minimal_push()
assert Instruction(OP_PUSHDATA2, b'x' * 65535).is_minimal_push()
''')
P('c30-for-number', 'C30', [('bitforge/script/opcode.py',
    "        if 0 <= n <= 16:\n            return OP_0 if n == 0 else Opcode(OP_1.number + n - 1)\n", "        if -1 <= n <= 16:\n            return OP_0 if n == 0 else Opcode(OP_1.number + n - 1)\n")],
  'asking for the operation of the number -1',
  'an operation that does not push that small number (79, outside the documented range) is returned instead of refusing; multi-signature conditions with -1 required signatures are built',
'''
from bitforge.script.opcode import *
for n in (-1, 17, -2):
    try:
        Opcode.for_number(n)
    except ValueError:
        continue
    raise AssertionError(n)
''')
P('c22-fragment', 'C22', [('bitforge/uri.py',
    "        query = urlencode(sorted(query.items()))\n", "        query = '&'.join(quote_plus(k) + '=' + quote_plus(v, safe = '#') for k, v in sorted(query.items()))\n"),
    ('bitforge/uri.py', "    from urllib.parse import urlparse, parse_qsl, urlencode\n", "    from urllib.parse import urlparse, parse_qsl, quote_plus\n")],
  'a text with a # in it',
  'the text is cut at the # when the URI is read',
'''
from bitforge import URI
for t in ('plain', 'a b', 'a&b=c', 'a#b', 'a+b', 'a%20b', '\\u20ac', 'a;b'):
    u = URI({'address': '1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa', 'label': t})
    assert URI(u.to_uri()).label == t, t
''')
P('c10-big-endian-length', 'C10', [('bitforge/encoding.py',
    "        data = (data + zeros)[:length]\n", "        data = (data + zeros)[:length] if len(data) < length or big_endian else data + b''\n        if len(data) > 8: data = data[:32]\n")],
  'an integer of more than 32 bytes written with an explicit length',
  'the integer is truncated',
'''
from bitforge.encoding import encode_int, decode_int
for n in range(1, 64):
    v = (1 << (8 * n)) - 3
    for b in (True, False):
        assert decode_int(encode_int(v, b, n), b) == v, n
''')
P('c09-input-kind', 'C09', [('bitforge/transaction/input.py',
    "        script_len = buffer.read_varint()\n        script     = Script.from_bytes(buffer.read(script_len))\n", "        script_len = buffer.read_varint()\n        script     = Script.from_buffer(Buffer(buffer.read(script_len).rstrip(b'\\0') if script_len > 520 else buffer.read(script_len)))\n")],
  'an input whose script is longer than 520 bytes and ends in OP_0',
  'trailing zero operations of long scripts are dropped when read',
'''
from bitforge.transaction import Input
from bitforge.script import *
for n in (1, 519, 520, 521, 700):
    i = Input('11' * 32, 1, Script.from_bytes(b'\\x51' * n + b'\\0'))
    assert Input.from_bytes(i.to_bytes()).to_bytes() == i.to_bytes(), n
''')
P('c16-redeem-cache', 'C16', [('bitforge/script/script.py',
    "        return [ i.data for i in self.instructions[1:-1] ]\n", "        return list(collections.OrderedDict.fromkeys(i.data for i in self.instructions[1:-1]))\n")],
  'a script hash input that carries the same signature (or data) twice',
  'repeated parts are read back once',
'''
from bitforge.script import *
from bitforge.script.opcode import *
s = Script.compile([OP_0, b'sig1', b'sig2', b'sig1', b'\\x51'])
assert s.get_signatures() == [b'sig1', b'sig2', b'sig1']
''')
P('c13-odd-key-order', 'C13', [('bitforge/transaction/output.py',
    "        redeem_script = RedeemMultisig.create(pubkeys, min_signatures)\n", "        redeem_script = RedeemMultisig.create(sorted(pubkeys, key = lambda p: p.to_bytes()), min_signatures)\n")],
  'a multi-signature output for public keys that are not in the order of their bytes',
  'the output is locked by another condition than the one the input redeems',
'''
from bitforge import *
from bitforge.transaction import *
for ks in ([3, 1, 2], [1, 2, 3], [2, 1, 3]):
    p = [PrivateKey(k).to_public_key() for k in ks]
    i = MultisigInput.create('11' * 32, 0, p, 2); o = MultisigOutput.create(7, p, 2)
    assert o.script.get_script_hash() == i.script.to_hash(), ks
''')
P('c28-early-r', 'C28', [('bitforge/signature.py',
    "    if (lenR > 1 and (sig[4] == 0x00) and not (sig[5] & 0x80)):\n", "    if (lenR > 2 and (sig[4] == 0x00) and not (sig[5] & 0x80)):\n")],
  'a signature whose R is two bytes long with a superfluous zero',
  'a padded integer is accepted',
'''
from bitforge.signature import validate_signature
assert not validate_signature(bytes.fromhex('3007' + '02020005' + '020107' + '01'))
assert validate_signature(bytes.fromhex('3007' + '02020085' + '020107' + '01'))
''')
P('c08-fingerprint-zero', 'C08', [('bitforge/hdprivkey.py',
    "            + to_bytes(self.parent, length = 4)\n            + to_bytes(self.index, length = 4)\n", "            + to_bytes(self.parent if self.depth else ROOT_FINGERPRINT, length = 4)\n            + to_bytes(self.index if self.parent else 0, length = 4)\n")],
  'an extended key whose parent has the fingerprint 0, or of depth 0 with a parent',
  'fields are lost in the text form',
'''
from bitforge import *
for d, i, p in ((0, 0, 0), (1, 5, 9), (1, 5, 0), (0, 0, 9)):
    k = HDPrivateKey(PrivateKey(5), b'c' * 32, d, i, p)
    assert HDPrivateKey.from_string(k.to_string()) == k, (d, i, p)
''')
P('c20-codeless', 'C20', [('bitforge/script/interpreter.py',
    "            if len(stack_copy) == 0:\n                raise Exception('internal error - stack copy empty')\n", "            if len(stack_copy) == 0 or len(stack_copy[-1]) == 0:\n                raise Exception('internal error - stack copy empty')\n")],
  'a pay-to-script-hash spend of the empty script',
  'verification raises',
'''
from bitforge.script import *
from bitforge.script.opcode import *
from bitforge.script.interpreter import Interpreter
r = Script()
assert Interpreter().verify(Script([Instruction(OP_1), Instruction(OP_0)]), Script.compile([OP_HASH160, r.to_hash(), OP_EQUAL]), flags = Interpreter.SCRIPT_VERIFY_P2SH) is True
''')

# ---------------------------------------------------------------- third batch
SWITCH = '''
import os, sys, threading
def interleave(a, b, want_a, want_b, limit = 400, opcodes = False):
    "suspend a() before every line (or instruction) of the library in turn, run b() meanwhile; each in a fork"
    root = os.path.join(os.getcwd(), 'bitforge')
    for k in range(limit):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            stop, go = threading.Event(), threading.Event()
            out = {}
            count = [0]
            def local(frame, event, arg):
                if event == ('opcode' if opcodes else 'line'):
                    count[0] += 1
                    if count[0] == k + 1:
                        sys.settrace(None); stop.set(); go.wait(5); return None
                return local
            def trace(frame, event, arg):
                if not frame.f_code.co_filename.startswith(root): return None
                if opcodes: frame.f_trace_opcodes = True
                return local
            def run():
                try:
                    if opcodes: sys._getframe().f_trace_opcodes = True
                    sys.settrace(trace)
                    out['a'] = a()
                except Exception as e: out['a'] = repr(e)
                sys.settrace(None); stop.set()
            t = threading.Thread(target = run, daemon = True); t.start()
            stop.wait(10)
            def other():
                try: out['b'] = b()
                except Exception as e: out['b'] = repr(e)
            u = threading.Thread(target = other, daemon = True); u.start(); u.join(2)
            go.set(); t.join(5); u.join(5)
            ok = out.get('a') == want_a and out.get('b') == want_b
            os.write(w, b'1' if ok else b'0')
            os.write(w, b'1' if count[0] < k + 1 else b'0')
            os._exit(0)
        os.close(w)
        text = os.read(r, 2); os.close(r); os.waitpid(pid, 0)
        assert text[:1] == b'1', 'a wrong result when suspended at %d' % k
        if text[1:] == b'1': return
'''
P('c26-lazy-names', 'C26', [('bitforge/script/opcode.py',
    "        # Get element from module\n        _module = sys.modules[__name__]\n        members = inspect.getmembers(_module)\n        # Cast iterable to list for python 3 compatibility\n        results = list(filter(lambda member: member[0] == name, members))\n\n        if not results:\n            raise Opcode.UnknownOpcodeName(name)\n\n        return results[0][1]\n",
    "        # Map the names once, they don't change\n        names = Opcode.opcode_name_to_opcode\n\n        if not names:\n            for member, value in inspect.getmembers(sys.modules[__name__]):\n                if member.startswith('OP_'):\n                    names[member] = value\n\n        if name not in names:\n            raise Opcode.UnknownOpcodeName(name)\n\n        return names[name]\n"),
    ('bitforge/script/opcode.py', "    opcode_number_to_name = {}  # Filled after class definition\n", "    opcode_number_to_name = {}  # Filled after class definition\n    opcode_name_to_opcode = {}  # Filled on first use\n")],
  'a second thread looks an opcode up while the first fills the table, at the first use in a process',
  'a known opcode name is refused',
  SWITCH + '''
from bitforge.script import Script
interleave(lambda: Script.from_string('OP_1').to_bytes(), lambda: Script.from_string('OP_XOR').to_bytes() + Script.from_string('OP_WITHIN').to_bytes(), b'\\x51', b'\\x86\\xa5')
''')
P('c26-move-to-front', 'C26', [('bitforge/networks.py', "      for network in _networks:\n        if getattr(network, attr) == value:\n          return network\n",
    "      for i, network in enumerate(_networks):\n        if getattr(network, attr) == value:\n          if i > 0:\n            _networks.insert(0, _networks.pop(i)) # most programs use a single network\n          return network\n")],
  'a network is looked up while another thread has taken it out of the list, which is within one line',
  'a known network is not found',
  SWITCH + '''
from bitforge import networks
f = lambda: networks.find(239, 'wif_prefix').name
interleave(f, f, 'testnet', 'testnet', opcodes = True)
g = lambda: networks.find(128, 'wif_prefix').name
interleave(f, g, 'testnet', 'livenet', opcodes = True)
''')
P('c26-buffer-class', 'C26', [('bitforge/tools.py', "        del self[:amount]\n        return ret\n", "        del self[:amount]\n        Buffer.last = ret # for error messages\n        return Buffer.last\n")],
  'two threads parsing at once, one interrupted between taking the bytes and returning them',
  'a parser returns the bytes another thread has just read',
  SWITCH + '''
from bitforge.script import Script
from bitforge import Transaction
a = bytes.fromhex('76a914' + '11' * 20 + '88ac'); b = bytes.fromhex('a914' + '22' * 20 + '87')
interleave(lambda: Script.from_bytes(a).to_bytes(), lambda: Script.from_bytes(b).to_bytes(), a, b)
''')

# ---------------------------------------------------------------- third batch
PUB, PRV, ADR = 'bitforge/pubkey.py', 'bitforge/privkey.py', 'bitforge/address.py'
HDV, HDP = 'bitforge/hdprivkey.py', 'bitforge/hdpubkey.py'
SCR, OPC, INS = 'bitforge/script/script.py', 'bitforge/script/opcode.py', 'bitforge/script/instruction.py'
TIN, TOUT, TX = 'bitforge/transaction/input.py', 'bitforge/transaction/output.py', 'bitforge/transaction/transaction.py'

P('c01-early-stop', 'C01', [(ENC,
    "        if v == 0:\n            prefix += 1\n", "        if v == 0 and prefix < 255:\n            prefix += 1\n")],
  'a payload that starts with more than 255 zero bytes',
  'leading zeros beyond 255 are lost',
'''
from bitforge.encoding import encode_base58h, decode_base58h
for n in (0, 1, 254, 255, 256, 257, 300):
    data = b'\\0' * n + b'x'
    assert decode_base58h(encode_base58h(data)) == data, n
''')


P('c02-hex-strip', 'C02', [(PRV,
    "            bytes = decode_hex(string)\n", "            bytes = decode_hex(string[2:] if string[:2] == '0x' else string)\n")],
  'a hexadecimal text with a 0x prefix',
  'a text that is not the hexadecimal form of a secret is accepted',
'''
from bitforge import PrivateKey
k = PrivateKey(77)
assert PrivateKey.from_hex(k.to_hex()) == k
try:
    PrivateKey.from_hex('0x' + k.to_hex())
except PrivateKey.Error:
    pass
else:
    raise AssertionError('accepted')
''')

P('c03-lstrip', 'C03', [(ADR,
    "        return Address(bytes[1:], network, type)\n", "        return Address(bytes.lstrip(bytes[:1]).rjust(20, b'\\0'), network, type)\n")],
  'an address of the test network whose hash starts with the version byte',
  'the hash is read back with zeros in place of those bytes',
'''
from bitforge import Address, networks
for net in (networks.livenet, networks.testnet):
    for t in Address.Type:
        v = getattr(net, t.value)
        for n in range(0, 4):
            a = Address(bytes([v]) * n + b'\\x77' * (20 - n), net, t)
            assert Address.from_bytes(a.to_bytes()) == a, (net.name, t, n)
            assert Address.from_string(a.to_string()) == a, (net.name, t, n)
''')

P('c03-script-hash-trailing', 'C03', [(ADR,
    "        phash = ripemd160(sha256(script.to_bytes()))\n        return Address(phash, network, Address.Type.Script)\n",
    "        phash = ripemd160(sha256(bytes(script.to_bytes())[:520]))\n        return Address(phash, network, Address.Type.Script)\n")],
  'a script longer than 520 bytes',
  'the address of a longer script is that of its first 520 bytes',
'''
import hashlib
from bitforge import Address
from bitforge.script import Script
for n in (1, 519, 520, 521, 522, 600, 1041):
    s = Script.from_bytes(b'\\x51' * n)
    assert Address.from_script(s).phash == hashlib.new('ripemd160', hashlib.sha256(b'\\x51' * n).digest()).digest(), n
''')

P('c04-short-y', 'C04', [(ENC,
    "    y_str = to_bytes_32(public_pair[1])\n", "    y_str = from_long(public_pair[1], 0, 256, lambda x: x).ljust(32, b'\\0')\n")],
  'an uncompressed key whose y coordinate has a leading zero byte',
  'the coordinate is padded on the wrong side',
'''
from bitforge import PrivateKey, PublicKey
found = 0
for s in range(1, 2000):
    p = PrivateKey(s, compressed=False).to_public_key()
    x, y = p.pair
    if y >> 248 == 0:
        found += 1
        assert p.to_bytes() == b'\\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big'), s
        assert PublicKey.from_bytes(p.to_bytes()) == p, s
        if found == 3: break
assert found
''')

P('c04-sec-case', 'C04', [(PUB,
    "            compressed = utils.encoding.is_sec_compressed(bytes)\n",
    "            compressed = utils.encoding.is_sec_compressed(bytes) or bytes[32] == 0\n")],
  'an uncompressed encoding whose x coordinate ends in a zero byte',
  'the key is read as a compressed one and written back as other bytes',
'''
from bitforge import PrivateKey, PublicKey
found = 0
for s in range(1, 3000):
    p = PrivateKey(s, compressed=False).to_public_key()
    if p.pair[0] & 0xff == 0:
        found += 1
        assert PublicKey.from_bytes(p.to_bytes()) == p, s
        if found == 3: break
assert found
''')

P('c06-long-digest', 'C06', [(PRV,
    "        return signing_key.sign_digest(message, sigencode = sigencode_canonical)\n",
    "        return signing_key.sign_digest(message[:32], sigencode = sigencode_canonical)\n")],
  'a digest longer than 32 bytes',
  'any text with the same first 32 bytes gets the same signature instead of being refused',
'''
from bitforge import PrivateKey
k = PrivateKey(5)
out = []
for m in (b'a' * 32 + b'x', b'a' * 32 + b'y'):
    try:
        out.append(k.sign(m))
    except Exception:
        out.append(None)
assert out == [None, None], out
''')
OWN2 = ['c06-long-digest']

P('c07-index-border', 'C07', [(HDV,
    "        if index < HARDENED_START and hardened:\n", "        if index <= HARDENED_START and hardened:\n")],
  'the hardened derivation of the index 0x80000000 with the flag set',
  'the child 0x80000000 asked for as hardened is not derived',
'''
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
assert k.derive(0x80000000, True) == k.derive(0, True) == k.derive(0x80000000)
''')

P('c07-depth-wrap', 'C07', [(HDV,
    "        depth   = self.depth + 1\n", "        depth   = (self.depth + 1) % 128\n")],
  'the child of a key at depth 127',
  'the child says it is a master key',
'''
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
for i in range(130):
    assert k.depth == i
    k = k.derive(1)
''')

P('c07-chain-zeros', 'C07', [(HDP,
    "        chain   = signed64[32:]\n", "        chain   = signed64[32:].lstrip(b'\\0')\n")],
  'a public derivation whose chain code starts with a zero byte',
  'the chain code loses its leading zeros, so the public chain leaves the private one',
'''
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
p = k.to_hd_public_key()
found = 0
for i in range(3000):
    a = k.derive(i)
    if a.chain[0] == 0:
        found += 1
        assert p.derive(i) == a.to_hd_public_key(), i
        if found == 2: break
assert found
''')

P('c07-max-index', 'C07', [(HDP,
    "        if not (0 <= index <= 0xFFFFFFFF):\n", "        index = index & 0xFFFFFFFF\n        if not (0 <= index <= 0xFFFFFFFF):\n")],
  'a public derivation with an index of 2^32 or more',
  'an index out of range gives the child of another index',
'''
from bitforge.hdprivkey import HDPrivateKey
p = HDPrivateKey.from_seed(b's' * 32).to_hd_public_key()
for i in (1 << 32, (1 << 32) + 5, -1, -(1 << 32)):
    try:
        p.derive(i)
    except ValueError:
        continue
    raise AssertionError(i)
''')

P('c08-chain-int', 'C08', [(HDV,
    "        chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]\n",
    "        chain   = int_to_bytes(int_from_bytes(data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]))\n")],
  'the text of an extended private key whose chain code starts with a zero byte',
  'the chain code loses its leading zeros',
'''
from bitforge.hdprivkey import HDPrivateKey
from bitforge import PrivateKey
for n in (0, 1, 2, 31):
    k = HDPrivateKey(PrivateKey(9), b'\\0' * n + b'\\7' * (32 - n))
    assert HDPrivateKey.from_string(k.to_string()) == k, n
''')

P('c08-depth-zero-index', 'C08', [(HDP,
    "            + to_bytes(self.index, length = 4)\n", "            + to_bytes(self.index if self.depth else 0, length = 4)\n")],
  'a key at depth 0 with an index', 'the index of a key at depth 0 is lost in the text form',
'''
from bitforge.hdpubkey import HDPublicKey
from bitforge import PrivateKey
for d in (0, 1, 255):
    for i in (0, 1, 0xffffffff):
        k = HDPublicKey(PrivateKey(9).to_public_key(), b'c' * 32, d, i, 7)
        assert HDPublicKey.from_string(k.to_string()) == k, (d, i)
''')

P('c09-coinbase-index', 'C09', [(TIN,
    "        txo_index = decode_int(buffer.read(4), big_endian = False)\n",
    "        txo_index = decode_int(buffer.read(4), big_endian = False) % 0xFFFFFFFF\n")],
  'an input with the output index 0xffffffff (of a coinbase)',
  'the index is read as 0',
'''
from bitforge.transaction import Input
from bitforge.script import Script
for n in (0, 1, 0xfffffffe, 0xffffffff):
    i = Input('ab' * 32, n, Script())
    assert Input.from_bytes(i.to_bytes()) == i, n
''')

P('c09-upper-id', 'C09', [(TX,
    "        for input in self.inputs:\n            buffer.write(input.to_bytes())\n",
    "        for input in sorted(self.inputs, key = lambda i: len(self.inputs) > 252 and i.tx_id):\n            buffer.write(input.to_bytes())\n")],
  'a transaction with more than 252 inputs in no order',
  'the inputs are written in another order',
'''
from bitforge.transaction import Input, Output, Transaction
from bitforge.script import Script
for n in (2, 252, 253, 254):
    ins = [Input('%064x' % (n - i), i, Script()) for i in range(n)]
    t = Transaction(ins, [Output(1, Script())])
    assert Transaction.from_bytes(t.to_bytes()).inputs == tuple(ins), n
''')

P('c10-read-negative', 'C10', [('bitforge/tools.py',
    "        if len(self) < amount:\n", "        if len(self) < amount < 0x10000:\n")],
  'reading 65536 bytes or more from a shorter buffer',
  'a read past the end returns less than was asked for',
'''
from bitforge.tools import Buffer
for have in (0, 5):
    for n in (6, 255, 65535, 65536, 1 << 32):
        b = Buffer(b'x' * have)
        try:
            b.read(n)
        except Buffer.InsufficientData:
            continue
        raise AssertionError(n)
''')

P('c10-decode-little', 'C10', [(BENC,
    "        bytes = reversed(bytes)\n", "        bytes = reversed(bytes[:8])\n")],
  'decoding a little-endian integer of more than eight bytes',
  'the higher bytes are ignored',
'''
from bitforge.encoding import encode_int, decode_int
for n in range(0, 200):
    v = (1 << n) | 1
    assert decode_int(encode_int(v, big_endian=False), big_endian=False) == v, n
''')

P('c12-fingerprint', 'C12', [(TIN,
    "            privkeys[0].to_address().phash == self.script.get_address_hash()\n",
    "            privkeys[0].to_address().phash[:4] == self.script.get_address_hash()[:4]\n")],
  'an address whose first four bytes are those of the address of the key',
  'can_sign says yes for a key that cannot spend the address',
'''
from bitforge import PrivateKey, Address
from bitforge.transaction import AddressInput
k = PrivateKey(9); h = k.to_address().phash
for n in range(20):
    g = h[:n] + bytes([h[n] ^ 1]) + h[n+1:]
    i = AddressInput.create('ab' * 32, 0, Address(g))
    assert not i.can_sign([k]), n
assert AddressInput.create('ab' * 32, 0, Address(h)).can_sign([k])
''')

P('c13-output-big', 'C13', [(TOUT,
    "        return cls(amount, script)\n\n\nclass MultisigOutput", "        return cls(amount & 0x7FFFFFFFFFFFFFF, script)\n\n\nclass MultisigOutput")],
  'a script output of 2^59 satoshis or more', 'the amount is reduced',
'''
from bitforge.transaction import ScriptOutput
from bitforge.script import Script
for n in range(64):
    assert ScriptOutput.create(1 << n, Script.from_bytes(b'\\x51')).amount == 1 << n, n
''')

P('c13-sixteen', 'C13', [(OPC,
    "            return OP_0 if n == 0 else Opcode(OP_1.number + n - 1)\n",
    "            return OP_0 if n % 16 == 0 else Opcode(OP_1.number + n - 1)\n")],
  'a multi-signature condition of sixteen keys',
  'the count of keys is written as 0',
'''
from bitforge import PrivateKey
from bitforge.script import RedeemMultisig
for n in (1, 2, 15, 16):
    s = RedeemMultisig.create([PrivateKey(i + 1).to_public_key() for i in range(n)], 1)
    assert s.to_bytes()[-2] == 80 + n, n
''', also=['C30'])

P('c14-empty-tail', 'C14', [(SCR,
    "                data   = buffer.read(length)\n", "                data   = buffer.read(length) if buffer else b''\n")],
  'a script that ends right after the length of a push',
  'a truncated script is accepted and written back as other bytes',
'''
from bitforge.script import Script
for b in (b'\\x4c\\5', b'\\x4d\\5\\0', b'\\x4e\\5\\0\\0\\0'):
    try:
        s = Script.from_bytes(b)
    except Exception:
        continue
    assert s.to_bytes() == b, b
''')

P('c14-signed-length', 'C14', [(SCR,
    "                length = decode_int(length_bytes, big_endian = False)\n",
    "                length = decode_int(length_bytes, big_endian = False) & 0x7fff\n")],
  'a push of 32768 bytes or more', 'the data is cut and its rest is read as operations',
'''
from bitforge.script import Script
for n in (1, 32767, 32768, 40000, 65535, 65536):
    b = (b'\\x4d' + n.to_bytes(2, 'little') if n < 65536 else b'\\x4e' + n.to_bytes(4, 'little')) + b'\\x51' * n
    s = Script.from_bytes(b)
    assert len(s.instructions) == 1 and s.instructions[0].data == b'\\x51' * n, n
''')

P('c15-upper-prefix', 'C15', [(SCR,
    "        tokens = iter(string.split())\n", "        tokens = iter(string.lower().replace('op_', 'OP_').split() if ' 0X' in string else string.split())\n")],
  'a text with a 0X prefix', 'malformed text is accepted',
'''
from bitforge.script import Script
for bad in ('1 0Xab', 'OP_0 2 0Xabcd'):
    try:
        Script.from_string(bad)
    except Script.Error:
        continue
    raise AssertionError(bad)
''')

P('c15-size-ignored', 'C15', [(SCR,
    "                    if size != len(bytes):\n", "                    if size > len(bytes):\n")],
  'a push with more data than its size says', 'malformed text is accepted',
'''
from bitforge.script import Script
for bad in ('OP_PUSHDATA1 1 0xabcd', 'OP_PUSHDATA2 0 0xab', 'OP_PUSHDATA4 3 0xabcd'):
    try:
        Script.from_string(bad)
    except Script.Error:
        continue
    raise AssertionError(bad)
''')

P('c16-opreturn-loose', 'C16', [(SCR,
    "        return script.get_structure() == (OP_RETURN, 'PUSH')\n",
    "        structure = script.get_structure()\n        return structure[:1] == (OP_RETURN,) and structure[1:] in (('PUSH',), ('PUSH', 'PUSH'))\n")],
  'OP_RETURN with two pushes', 'a script of another form is recognized as the template',
'''
from bitforge.script import Script, OpReturnOut
assert not isinstance(Script.from_bytes(b'\\x6a\\1a\\1b'), OpReturnOut)
assert isinstance(Script.from_bytes(b'\\x6a\\1a'), OpReturnOut)
''')

P('c17-minimal-first', 'C17', [(BENC,
    "            if len(bytes) <= 1 or not (bytes[-2] & 0x80):\n", "            if len(bytes) <= 1 or not (bytes[0] & 0x80):\n")],
  'a number of three or more bytes whose last one is only a sign',
  'longer than necessary encodings pass as minimal and minimal ones are refused',
'''
from bitforge.encoding import decode_script_number, encode_script_number
for n in (0x8000, -0x8000, 0x8080, 0xff00, -0xffff00, 0x800001):
    assert decode_script_number(encode_script_number(n), True) == n, n
try:
    decode_script_number(bytearray(b'\\x80\\0\\0'), True)
except Exception:
    pass
else:
    raise AssertionError
''')

P('c17-size-floor', 'C17', [(BENC,
    "    if len(bytes) > size:\n", "    if len(bytes) > max(size, 4) and bytes[-1] & 0x7f:\n")],
  'a number longer than allowed whose last byte is zero or a sign',
  'numbers longer than the limit are accepted',
'''
from bitforge.encoding import decode_script_number
for b in (b'\\1\\0\\0\\0\\0', b'\\1\\0\\0\\0\\x80', b'\\0' * 9, b'\\1' * 5):
    try:
        decode_script_number(bytearray(b))
    except Exception:
        continue
    raise AssertionError(b)
''')

P('c17-encode-wide', 'C17', [(BENC,
    "        bytes = bytearray(encode_int(integer, big_endian = False))\n        if bytes[-1] & 0x80:\n            bytes += encode_int(0x00)\n",
    "        bytes = bytearray(encode_int(integer, big_endian = False))\n        if bytes[-1] & 0x80 and len(bytes) < 5:\n            bytes += encode_int(0x00)\n")],
  'a positive number of five bytes with the top bit set', 'it is encoded as a negative number',
'''
from bitforge.encoding import decode_script_number, encode_script_number
for k in range(1, 64):
    for n in (1 << k, (1 << k) - 1, -(1 << k), 1 - (1 << k)):
        assert decode_script_number(encode_script_number(n), size = 9) == n, n
''')

P('c21-half-up', 'C21', [('bitforge/unit.py',
    "        self.satoshis = int(round(satoshis))\n", "        self.satoshis = int(satoshis + 0.5)\n")],
  'a negative amount, or one above 2^52', 'such amounts are changed by a satoshi',
'''
from bitforge import Unit
for n in (0, 1, -1, -5, 2 ** 52 + 1, 2 ** 53 - 1, 2 ** 53 + 1):
    assert Unit(satoshis = n).satoshis == n, n
''')

P('c21-mbtc-chain', 'C21', [('bitforge/unit.py',
    "            self._set_values(mbtc * Unit.mbtc)\n", "            self._set_values(mbtc * 1000 * Unit.bits)\n")],
  'an amount of milli-bitcoins at the middle between two satoshis',
  'the amount is rounded twice',
'''
from fractions import Fraction
from bitforge import Unit
import struct
bad = 0
for k in range(0, 4000):
    x = (k + 0.5) / 1e5
    for y in (x, struct.unpack('<d', struct.pack('<Q', struct.unpack('<Q', struct.pack('<d', x))[0] + 1))[0]):
        if Unit(mbtc = y).satoshis != round(y * 1e5): bad += 1
assert not bad, bad
''')

P('c22-case-fold', 'C22', [('bitforge/uri.py',
    "            if k in MEMBERS:\n                setattr(self, k, v)\n", "            if k.lower() in MEMBERS:\n                setattr(self, k.lower(), v)\n")],
  'a parameter whose name differs from a known one by case', 'it replaces the known parameter instead of being kept as another',
'''
from bitforge import URI
a = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
u = URI('bitcoin:%s?label=x&Label=y&R=z' % a)
assert u.label == 'x' and u.extras == {'Label': 'y', 'R': 'z'}, u.extras
''')

P('c22-semicolon', 'C22', [('bitforge/uri.py',
    "        data = dict(parse_qsl(parsed.query))\n", "        data = dict(parse_qsl(parsed.query.replace(';', '&')))\n")],
  'a text with an unescaped semicolon', 'the text is cut at the semicolon',
'''
from bitforge import URI
a = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
assert URI('bitcoin:%s?label=a;b' % a).label == 'a;b'
''')

P('c22-upper-scheme', 'C22', [('bitforge/uri.py',
    "        if parsed.scheme != 'bitcoin':\n", "        if not parsed.scheme.startswith('bitcoin'):\n")],
  'a scheme that starts with bitcoin', 'a URI of another scheme is accepted',
'''
from bitforge import URI
a = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
assert URI.is_valid('bitcoin:' + a)
for s in ('bitcoins', 'bitcoincash', 'bitcoin-test', 'bitcoin1'):
    assert not URI.is_valid(s + ':' + a), s
''')

P('c22-trailing-slash', 'C22', [('bitforge/uri.py',
    "        data['address'] = parsed.path or parsed.netloc\n", "        data['address'] = (parsed.path or parsed.netloc).strip('/')\n")],
  'a URI with slashes around the address', 'an invalid URI is accepted',
'''
from bitforge import URI
a = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
for u in ('bitcoin:/' + a, 'bitcoin:%s/' % a):
    assert not URI.is_valid(u), u
''')

P('c23-null-name', 'C23', [('bitforge/errors.py',
    "        self.value = value\n", "        self.value = value.encode('ascii').decode() if isinstance(value, str) else value\n")],
  'an unknown network with a name outside ASCII', 'a UnicodeEncodeError escapes',
'''
from bitforge import networks, PrivateKey
for n in ('nope', 'n\\xf6pe', '\\u2603'):
    try:
        PrivateKey(5, network = n)
    except PrivateKey.UnknownNetwork as e:
        str(e)
        continue
    raise AssertionError(n)
''')


P('c27-odd-only', 'C27', [(PRV,
    "    return rng.randint(1, KEY_MAX - 1)\n", "    return rng.randrange(1, KEY_MAX, 2)\n")],
  'nothing but looking at the secrets', 'half of the secrets are never generated',
'''
from bitforge import PrivateKey
assert any(PrivateKey().secret % 2 == 0 for i in range(200))
''')

P('c27-high-bits', 'C27', [(PRV,
    "    return rng.randint(1, KEY_MAX - 1)\n", "    return rng.getrandbits(256) % (KEY_MAX >> 8) + 1\n")],
  'looking at the distribution of the secrets', 'the first byte of a generated secret is always zero',
'''
from bitforge import PrivateKey
assert any(PrivateKey().secret >> 248 for i in range(20))
''')

P('c28-s-zero', 'C28', [('bitforge/signature.py',
    "    if (5 + lenR >= len(sig)): return False;\n", "    if (5 + lenR > len(sig)): return False;\n")],
  'a signature whose R reaches to its end', 'the check raises an IndexError',
'''
from bitforge.signature import validate_signature
for n in range(9, 74):
    sig = bytearray(b'\\x30' + bytes([n - 3]) + b'\\2' + bytes([n - 5]) + b'\\1' * (n - 4))
    assert validate_signature(sig) is False, n
''')

P('c29-address-length', 'C29', [(ENC,
    "    if len(blob) != 21:\n", "    if len(blob) < 21:\n")],
  'an address text with a payload longer than 21 bytes', 'over-long payloads are read as an address',
'''
from bitforge.utils.encoding import *
t = b2a_hashed_base58(b'\\0' * 22)
assert not is_valid_bitcoin_address(t)
''')

P('c29-uncompressed-address', 'C29', [(ENC,
    "    return hash160_sec_to_bitcoin_address(public_pair_to_hash160_sec(\n        public_pair, compressed=compressed), address_prefix=address_prefix)\n",
    "    return hash160_sec_to_bitcoin_address(public_pair_to_hash160_sec(\n        public_pair, compressed=compressed or address_prefix != b'\\0'), address_prefix=address_prefix)\n")],
  'the address of an uncompressed key on another network', 'it is that of the compressed key',
'''
from bitforge.utils.encoding import *
from bitforge import PrivateKey
p = PrivateKey(3).to_public_key().pair
for pre in (b'\\0', b'\\x6f'):
    for c in (True, False):
        assert bitcoin_address_to_hash160_sec(public_pair_to_bitcoin_address(p, c, pre), pre) == hash160(public_pair_to_sec(p, c)), (pre, c)
''')

P('c29-empty-prefixes', 'C29', [(ENC,
    "    if actual_prefix not in allowable_wif_prefixes:\n", "    if allowable_wif_prefixes and actual_prefix not in allowable_wif_prefixes:\n")],
  'an empty list of allowed prefixes', 'every WIF is accepted when none is allowed',
'''
from bitforge.utils.encoding import *
w = secret_exponent_to_wif(5)
assert is_valid_wif(w) and not is_valid_wif(w, []) and not is_valid_wif(w, [b'\\xef'])
''')

P('c30-push-only-reserved', 'C30', [(SCR,
    "        return all(i.opcode <= OP_16 for i in self.instructions)\n", "        return all(i.is_push() or i.opcode.is_number() for i in self.instructions)\n")],
  'a script with OP_1NEGATE or OP_RESERVED', 'a script of pushes is said not to be',
'''
from bitforge.script import Script
for b in (b'\\x4f', b'\\x50', b'\\x51\\x4f', b'\\x60'):
    assert Script.from_bytes(b).is_push_only(), b
assert not Script.from_bytes(b'\\x61').is_push_only()
''')

P('c31-case', 'C31', [('bitforge/networks.py',
    "        if getattr(network, attr) == value:\n", "        if getattr(network, attr) == value or str(getattr(network, attr)) == str(value):\n")],
  'a number given as text', 'a network is found by a value that is not its constant',
'''
from bitforge import networks
for v, a in (('111', 'pubkeyhash'), ('0', 'pubkeyhash'), ('8333', 'port')):
    assert networks.find(v, a, raises = False) is None, (v, a)
''')

OWN2 += ['c15-upper-prefix', 'c15-size-ignored', 'c17-size-floor', 'c21-half-up', 'c22-upper-scheme']

# ---------------------------------------------------------------- fourth batch
ITP = 'bitforge/script/interpreter.py'
RUN = '''
from bitforge.script import Script, Interpreter
from bitforge.transaction import Transaction, Input, Output
def run(sig, lock, flags = 0, tx = None, nin = 0):
    return Interpreter().verify(Script.from_bytes(sig), Script.from_bytes(lock), tx, nin, flags)
'''

P('c18-in-place', 'C18', [(ITP,
    "                self.stack = self.stack[:-1] + [encode_script_number(number)]\n",
    "                if type(bytes) is bytearray:\n                    bytes[:] = encode_script_number(number)\n                else:\n                    self.stack = self.stack[:-1] + [encode_script_number(number)]\n")],
  'an arithmetic operation on a number that was duplicated', 'the other copy changes too',
RUN + '''
assert run(b'', b'\\x52\\x76\\x8b\\x53\\x88\\x52\\x87')       # 2 DUP 1ADD 3 EQUALVERIFY 2 EQUAL
''')

P('c18-in-place-const', 'C25', [(ITP,
    "                bytes = self.stack[-1]\n                number = decode_script_number(bytes, f_required_minimal)\n",
    "                bytes = self.stack[-1]\n                number = decode_script_number(bytes, f_required_minimal)\n                if isinstance(bytes, Buffer) and instruction.opcode == OP_NOT:\n                    bytes[:] = encode_script_number(int(number == 0))\n                    return True\n")],
  'OP_NOT of the result of a comparison, and a later use of such a result',
  'the constant for false (or true) is changed for all later executions',
RUN + '''
eq = b'\\x51\\x52\\x87'                                    # 1 2 EQUAL
assert not run(b'', eq)
run(b'', eq + b'\\x91')                                    # ... NOT
assert not run(b'', eq)
''', also=['C18'])

P('c18-depth-wide', 'C18', [(ITP,
    "                bytes = encode_script_number(len(self.stack))\n", "                bytes = encode_script_number(len(self.stack) & 0xff)\n")],
  'OP_DEPTH with 256 elements or more', 'the depth is reduced',
RUN + '''
for n in (0, 1, 127, 128, 255, 256, 257, 900):
    want = bytes(n.to_bytes(2, 'little')).rstrip(b'\\0')
    if want and want[-1] & 0x80: want += b'\\0'
    push = bytes([len(want)]) + want if want else b'\\0'
    assert run(b'', b'\\x51' * n + b'\\x74' + push + b'\\x87'), n
''')

P('c18-equal-number', 'C18', [(ITP,
    "                f_equal = x1 == x2\n", "                f_equal = x1 == x2 or (len(x1) < 2 and len(x2) < 2 and decode_script_number(x1) == decode_script_number(x2))\n")],
  'comparing negative zero with the empty string', 'different strings are equal',
RUN + '''
assert not run(b'', b'\\0\\x01\\x80\\x87')
assert not run(b'', b'\\0\\x01\\x00\\x87')
''')

P('c18-roll-last', 'C18', [(ITP,
    "                    self.stack.pop(-n-1)\n", "                    self.stack.remove(bytes)\n")],
  'OP_ROLL of an element with an equal one below it', 'the lower element is removed in its place',
RUN + '''
# 1 2 1 3 | 1 ROLL takes the 1 on top of the 2: 1 2 3 1
assert run(b'', b'\\x51\\x52\\x51\\x53' + b'\\x51\\x7a' + b'\\x51\\x88\\x53\\x88\\x52\\x88\\x51\\x87')
''')

P('c18-hash-number', 'C18', [(ITP,
    "                    result = sha256(sha256(bytes))\n", "                    result = sha256(sha256(bytes)[:len(bytes) or 32])\n")],
  'OP_HASH256 of fewer than 32 bytes', 'the second hash is of a part of the first',
RUN + '''
import hashlib
for d in (b'', b'a', b'a' * 31, b'a' * 32, b'a' * 40):
    h = hashlib.sha256(hashlib.sha256(d).digest()).digest()
    assert run(b'', (bytes([len(d)]) + d) + b'\\xaa\\x20' + h + b'\\x87'), d
''')

P('c19-push-size-branch', 'C19', [(ITP,
    "        if instruction.data and len(instruction.data) > Interpreter.MAX_SCRIPT_ELEMENT_SIZE:\n",
    "        if f_exec and instruction.data and len(instruction.data) > Interpreter.MAX_SCRIPT_ELEMENT_SIZE:\n")],
  'a push of more than 520 bytes in a branch that is not executed', 'the limit is not enforced there',
RUN + '''
big = b'\\x4d\\x09\\x02' + b'a' * 521
assert not run(b'', b'\\0\\x63' + big + b'\\x68\\x51')
assert run(b'', b'\\0\\x63' + b'\\x4d\\x08\\x02' + b'a' * 520 + b'\\x68\\x51')
''')

P('c19-count-branch', 'C19', [(ITP,
    "        if instruction.opcode > OP_16:\n", "        if instruction.opcode > OP_16 and (f_exec or instruction.opcode <= OP_ENDIF):\n")],
  'more than 201 operations, some of them in a branch that is not executed', 'those do not count',
RUN + '''
for n, want in ((199, True), (200, False), (300, False)):
    assert run(b'', b'\\0\\x63' + b'\\x69' * n + b'\\x68\\x51') is want, n
''')

P('c19-disabled-branch', 'C19', [(ITP,
    "        if (instruction.opcode == OP_CAT or\n", "        if (f_exec or len(self.vf_exec) < 2) and (instruction.opcode == OP_CAT or\n")],
  'a disabled operation two branches deep that is not executed', 'a script with a disabled operation is accepted',
RUN + '''
for op in (0x7e, 0x7f, 0x80, 0x81, 0x83, 0x8d, 0x95, 0x99):
    for n in range(1, 5):
        assert not run(b'', b'\\0\\x63' * n + bytes([op]) + b'\\x68' * n + b'\\x51'), (op, n)
''')

P('c19-script-size', 'C19', [(ITP,
    "        if len(self.script.to_bytes()) > 10000:\n", "        if sum(1 + len(i.data or b'') for i in self.script.instructions) > 10000:\n")],
  'a script longer than 10000 bytes with pushes that state their length', 'the lengths do not count',
RUN + '''
def script(size):
    s = b'\\x51'
    while len(s) + 523 <= size: s += b'\\x4d\\x08\\x02' + b'a' * 520
    return s + b'\\x51' * (size - len(s))
for n, want in ((9999, True), (10000, True), (10001, False), (10020, False)):
    assert run(b'', script(n)) is want, n
''')

P('c19-cltv-2038', 'C19', [(ITP,
    "                nlock_time = decode_script_number(self.stack[-1], f_required_minimal, 5)\n",
    "                nlock_time = decode_script_number(self.stack[-1], f_required_minimal, 4)\n")],
  'a lock time of 2^31 or later', 'a satisfied lock is refused',
RUN + '''
I = Interpreter
tx = Transaction([Input('00' * 32, 0, Script(), 0)], [Output(0, Script())], 0xffffffff)
for t in (1600000001, 2 ** 31 - 1, 2 ** 31 + 1, 2 ** 32 - 1):
    d = t.to_bytes(5, 'little').rstrip(b'\\0')
    if d[-1] & 0x80: d += b'\\0'
    assert run(b'', bytes([len(d)]) + d + b'\\xb1', I.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY, tx), t
''')

P('c19-redeem-nin', 'C19', [(ITP,
    "            self.script = redeem_script\n            self.stack = stack_copy\n            self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])\n            self.nin = nin or 0\n",
    "            self.script = redeem_script\n            self.stack = stack_copy\n            self.tx = tx or Transaction([ Input('', 0, Script()) ], [ Output(0, Script()) ])\n            self.nin = 0\n")],
  'a lock time in the redeem script of an input that is not the first', 'the sequence number of the first input counts',
RUN + '''
import hashlib
I = Interpreter
redeem = b'\\x01\\x64\\xb1'
lock = b'\\xa9\\x14' + hashlib.new('ripemd160', hashlib.sha256(redeem).digest()).digest() + b'\\x87'
fl = I.SCRIPT_VERIFY_P2SH | I.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY
for a, b in ((0, 0), (0xffffffff, 0), (0, 0xffffffff)):
    tx = Transaction([Input('00' * 32, 0, Script(), a), Input('00' * 32, 1, Script(), b)], [Output(0, Script())], 200)
    for n in (0, 1):
        assert run(bytes([len(redeem)]) + redeem, lock, fl, tx, n) is ((a, b)[n] == 0), (a, b, n)
''')

P('c19-redeem-flags', 'C19', [(ITP,
    "            self.nin = nin or 0\n            self.flags = flags or 0\n", "            self.nin = nin or 0\n            self.flags = flags & ~Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS\n")],
  'an upgradable operation in a redeem script with the flag that discourages it', 'it is accepted there',
RUN + '''
import hashlib
I = Interpreter
for op in (0xb0, 0xb1, 0xb2, 0xb9):
    redeem = b'\\x51' + bytes([op])
    lock = b'\\xa9\\x14' + hashlib.new('ripemd160', hashlib.sha256(redeem).digest()).digest() + b'\\x87'
    assert run(b'\\2' + redeem, lock, I.SCRIPT_VERIFY_P2SH)
    assert not run(b'\\2' + redeem, lock, I.SCRIPT_VERIFY_P2SH | I.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS)
''')

P('c19-p2sh-copy', 'C19', [(ITP,
    "            stack_copy = stack_copy[:-1]\n", "            stack_copy = stack_copy[-20:-1]\n")],
  'a pay-to-script spend with more than 20 pushes', 'the first pushes are lost',
RUN + '''
import hashlib
I = Interpreter
for n in (1, 18, 19, 20, 21, 30):
    redeem = b'\\x74\\1' + bytes([n]) + b'\\x87'
    lock = b'\\xa9\\x14' + hashlib.new('ripemd160', hashlib.sha256(redeem).digest()).digest() + b'\\x87'
    assert run(b'\\x51' * n + bytes([len(redeem)]) + redeem, lock, I.SCRIPT_VERIFY_P2SH), n
''')

P('c25-hash-key', 'C25', [(BENC,
    "def encode_script_number(integer):\n    if integer == 0:\n",
    "_numbers = {}\n\n\ndef encode_script_number(integer):\n    key = hash(integer)\n    if key not in _numbers and len(_numbers) < 4096:\n        _numbers[key] = bytes(_encode_script_number(integer))\n    return bytearray(_numbers[key]) if key in _numbers else _encode_script_number(integer)\n\n\ndef _encode_script_number(integer):\n    if integer == 0:\n")],
  'the numbers -1 and -2, one after the other (their hashes are the same)', 'the second gets the encoding of the first',
'''
from bitforge.encoding import encode_script_number
assert bytes(encode_script_number(-1)) == b'\\x81'
assert bytes(encode_script_number(-2)) == b'\\x82'
''')

P('c25-grown-default', 'C25', [(ENC,
    "    actual_prefix, secret_exponent, is_compressed = wif_to_tuple_of_prefix_secret_exponent_compressed(wif)\n",
    "    actual_prefix, secret_exponent, is_compressed = wif_to_tuple_of_prefix_secret_exponent_compressed(wif)\n    if b'\\xef' in allowable_wif_prefixes and b'\\x80' not in allowable_wif_prefixes:\n        _testnet_seen.append(b'\\xef')\n    allowable_wif_prefixes = list(allowable_wif_prefixes) + _testnet_seen\n"),
   (ENC, "def wif_to_tuple_of_secret_exponent_compressed(", "_testnet_seen = []\n\n\ndef wif_to_tuple_of_secret_exponent_compressed(")],
  'reading a test network key and then one with the standard prefixes', 'keys of the test network are accepted from then on',
'''
from bitforge.utils.encoding import *
w = secret_exponent_to_wif(5, wif_prefix = b'\\xef')
assert not is_valid_wif(w)
assert is_valid_wif(w, [b'\\xef'])
assert not is_valid_wif(w)
''', also=['C29'])

P('c26-swap-alphabet', 'C26', [(ENC,
    "    v, prefix = to_long(256, byte_to_int, s)\n    s = from_long(v, prefix, BASE58_BASE, lambda v: BASE58_ALPHABET[v])\n    return s.decode(\"utf8\")\n",
    "    global _source\n    _source = s\n    v, prefix = to_long(256, byte_to_int, _source)\n    s = from_long(v, prefix, BASE58_BASE, lambda v: BASE58_ALPHABET[v])\n    return s.decode(\"utf8\")\n")],
  'two threads encoding at once, switched between two neighbouring lines', 'one of them encodes the bytes of the other',
SWITCH_DEMO if 'SWITCH_DEMO' in globals() else '''
import sys, threading
from bitforge.utils import encoding as E
a, b = b'a' * 20, b'b' * 20
want = {a: E.b2a_base58(a), b: E.b2a_base58(b)}
bad = []
real = E.to_long
def other(): bad.append(E.b2a_base58(b) != want[b])
def tracer(frame, event, arg):
    if frame.f_code is E.b2a_base58.__code__:
        def lines(f, e, x):
            if e == 'line':
                t = threading.Thread(target = other); t.start(); t.join()
            return lines
        return lines
got = []
def first():
    sys.settrace(tracer)
    try: got.append(E.b2a_base58(a))
    finally: sys.settrace(None)
t = threading.Thread(target = first); t.start(); t.join()
assert got == [want[a]] and not any(bad), got
''')

P('c28-two-zeros', 'C28', [('bitforge/signature.py',
    "    if (lenR > 1 and (sig[4] == 0x00) and not (sig[5] & 0x80)):\n", "    if (lenR > 2 and (sig[4] == 0x00) and not (sig[5] & 0x80)):\n")],
  'an R of two bytes with a superfluous zero', 'a padded integer is accepted',
'''
from bitforge.signature import validate_signature
assert not validate_signature(bytearray(b'\\x30\\x07\\2\\2\\0\\1\\2\\1\\1\\1'))
assert validate_signature(bytearray(b'\\x30\\x07\\2\\2\\0\\x80\\2\\1\\1\\1'))
''')

# ================================================================ fifth batch
P('c16-dup-keys', 'C16', [('bitforge/script/script.py',
    "        return [ PublicKey.from_bytes(i.data) for i in self.instructions[1:-2] ]\n",
    "        keys = []\n        for i in self.instructions[1:-2]:\n            key = PublicKey.from_bytes(i.data)\n            if key not in keys: keys.append(key)\n        return keys\n")],
  'a condition that names the same key twice', 'the second mention is not reported',
'''
from bitforge import PrivateKey
from bitforge.script import *
k = PrivateKey(5).to_public_key()
s = RedeemMultisig.create([k, PrivateKey(6).to_public_key(), k], 2)
assert len(s.get_public_keys()) == 3
''')

P('c22-same-text', 'C22', [('bitforge/uri.py',
    "            if value: query[key] = value\n", "            if value and value not in query.values(): query[key] = value\n")],
  'a label that is the same text as the message', 'one of the two is lost when the URI is written',
'''
from bitforge.uri import URI
a = '1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa'
u = URI(URI({'address': a, 'label': 'x', 'message': 'x'}).to_uri())
assert u.label == u.message == 'x'
''')

P('c15-comment', 'C15', [('bitforge/script/script.py',
    "        for token in tokens:\n            try:\n", "        for token in tokens:\n            if token.startswith('#'): break\n            try:\n")],
  'a text with a token that starts with #', 'everything from there on is ignored',
'''
from bitforge.script import Script
from bitforge.errors import BitforgeError
for t in ['#', 'OP_1 # OP_2', '#OP_1']:
    try: Script.from_string(t)
    except BitforgeError: continue
    raise AssertionError(t)
''')

P('c09-coinbase-seq', 'C09', [('bitforge/transaction/input.py',
    "        return cls(tx_id, txo_index, script, seq_number)\n\n\nclass AddressInput",
    "        if txo_index == 0xFFFFFFFF and tx_id == '0' * 64:\n            seq_number = FINAL_SEQ_NUMBER # coinbase\n\n        return cls(tx_id, txo_index, script, seq_number)\n\n\nclass AddressInput")],
  'an input that spends nothing (a coinbase), with a sequence number other than the final one', 'the sequence number is replaced when reading',
'''
from bitforge.transaction import *
from bitforge.script import Script
t = Transaction([Input('0' * 64, 0xFFFFFFFF, Script(), 7)], [Output(5, Script())])
assert Transaction.from_bytes(t.to_bytes()).to_bytes() == t.to_bytes()
''')

P('c31-str-constant', 'C31', [('bitforge/networks.py',
    "        if getattr(network, attr) == value:\n", "        if str(getattr(network, attr)) == str(value):\n")],
  'looking a network up by the text of a number', 'a network is found where there is none',
'''
from bitforge import networks
assert networks.find('128', 'wif_prefix', raises = False) is None
assert networks.find(128, 'wif_prefix') is networks.livenet
''')

P('c20-negative-sigs', 'C20', [('bitforge/script/interpreter.py',
    "                if not (0 <= sigs_count <= keys_count):\n", "                if sigs_count > keys_count:\n")],
  'a condition that demands minus one signature', 'it is satisfied by nothing',
'''
from bitforge.script import *
from bitforge.script.opcode import *
from bitforge.script.interpreter import Interpreter
k = b'\\2' * 33
out = Script.compile([OP_0, OP_1NEGATE, k, OP_1, OP_CHECKMULTISIG])
assert Interpreter().verify(Script.compile([OP_0]), out) is False
''')

P('c24-push-eq', 'C24', [('bitforge/script/instruction.py',
    "        return super(Instruction, self).__eq__(other)\n",
    "        if isinstance(other, Instruction) and self.data is not None:\n            return self.data == other.data\n\n        return super(Instruction, self).__eq__(other)\n"),
    ('bitforge/script/instruction.py', "        return hash((self.opcode, self.data))\n", "        return hash(self.data if self.data is not None else self.opcode)\n")],
  'two pushes of the same data by different operations', 'they are equal although their contents differ',
'''
from bitforge.script.instruction import Instruction
from bitforge.script.opcode import *
assert not (Instruction(OP_PUSHDATA1, b'abc') == Instruction(Opcode(3), b'abc'))
assert Instruction(OP_PUSHDATA1, b'abc') == Instruction(OP_PUSHDATA1, b'abc')
''')

P('c29-first-prefix', 'C29', [(ENC,
    "    return prefix in allowable_prefixes\n", "    return bytes(b''.join(allowable_prefixes) if isinstance(allowable_prefixes, (list, tuple)) else allowable_prefixes).startswith(prefix)\n")],
  'asking with several allowed prefixes about an address of the second', 'a valid address is called invalid',
'''
from bitforge.utils.encoding import *
a = hash160_sec_to_bitcoin_address(b'x' * 20, b'\\x6f')
assert is_valid_bitcoin_address(a, b'\\0\\x6f')
assert is_valid_bitcoin_address(a, [b'\\0', b'\\x6f'])
''')

P('c13-dup-count', 'C13', [('bitforge/script/script.py',
    "            [ Opcode.for_number(len(pubkeys)) ] +\n", "            [ Opcode.for_number(len(set(pubkeys))) ] +\n")],
  'a group in which one key has two shares', 'the condition counts fewer keys than it lists, and nobody can satisfy it as intended',
'''
from bitforge import PrivateKey
from bitforge.script import *
from bitforge.script.opcode import *
k = PrivateKey(5).to_public_key()
s = RedeemMultisig.create([k, k, PrivateKey(6).to_public_key()], 2)
assert s.instructions[-2].opcode == OP_3
''')

P('c01-look-alikes', 'C01', [(ENC,
    "BASE58_LOOKUP = dict((c, i) for i, c in enumerate(BASE58_ALPHABET))\n",
    "BASE58_LOOKUP = dict((c, i) for i, c in enumerate(BASE58_ALPHABET))\nBASE58_LOOKUP.update((ord(wrong), BASE58_LOOKUP[ord(right)]) for wrong, right in ['0o', 'Oo', 'I1', 'l1'])\n")],
  'a character outside the alphabet that looks like one of it', 'the text is accepted as if it were the right one',
'''
from bitforge.encoding import *
t = encode_base58h(b'\\0' * 3 + b'abc')
assert t.startswith('111')
try: decode_base58h('l' + t[1:])
except InvalidBase58h: pass
else: raise AssertionError
''', also=['C03'])

P('c02-strip-wif', 'C02', [('bitforge/privkey.py',
    "            bytes = bytearray(decode_base58h(string))\n", "            bytes = bytearray(decode_base58h(string.strip()))\n")],
  'a WIF with space around it', 'it is accepted',
'''
from bitforge import PrivateKey
for t in [' %s', '%s\\n', '\\t%s ']:
    try: PrivateKey.from_wif(t % PrivateKey(5).to_wif())
    except PrivateKey.Error: continue
    raise AssertionError(t)
''')

P('c03-hex-0x', 'C03', [('bitforge/address.py',
    "            bytes = decode_hex(string)\n", "            bytes = decode_hex(string[2:] if string[:2] in ('0x', '0X') else string)\n")],
  'a hexadecimal address that starts with 0x', 'it is accepted',
'''
from bitforge import Address
h = Address(b'x' * 20).to_hex()
assert Address.from_hex(h).to_hex() == h
try: Address.from_hex('0x' + h)
except Address.Error: pass
else: raise AssertionError
''')

P('c04-hex-0x', 'C04', [('bitforge/pubkey.py',
    "            bytes = decode_hex(string)\n", "            bytes = decode_hex(string.replace(' ', '').replace(':', ''))\n")],
  'a hexadecimal public key with separators', 'it is accepted',
'''
from bitforge import PrivateKey, PublicKey
h = PrivateKey(5).to_public_key().to_hex()
for t in [h[:2] + ' ' + h[2:], h[:2] + ':' + h[2:]]:
    try: PublicKey.from_hex(t)
    except PublicKey.Error: continue
    raise AssertionError(t)
''')

P('c11-version', 'C11', [('bitforge/transaction/transaction.py',
    "        return Transaction(inputs, self.outputs, self.lock_time, self.version)\n",
    "        return Transaction(inputs, self.outputs, self.lock_time, self.version or 1)\n")],
  'a transaction of version 0', 'signing changes the version',
'''
from bitforge import *
from bitforge.transaction import *
from bitforge.script import Script
k = PrivateKey(5)
t = Transaction([AddressInput.create('ab' * 32, 0, k.to_address())], [Output(1, Script())], version = 0)
assert t.sign([k], 0).version == 0
''')

P('c11-code-mask', 'C11', [('bitforge/transaction/transaction.py',
    "        base_sigtype = sigtype & 0x1f\n", "        base_sigtype = sigtype & 0x03\n")],
  'a signature type with unused bits set, such as 6', 'it signs less than it should',
'''
from bitforge import *
from bitforge.transaction import *
from bitforge.script import Script
k = PrivateKey(5)
i = AddressInput.create('ab' * 32, 0, k.to_address())
a = Transaction([i], [Output(1, Script())]).get_signature_payload(0, 6)
b = Transaction([i], [Output(2, Script())]).get_signature_payload(0, 6)
assert a != b
''', own=True)

P('c18-booland-bits', 'C18', [('bitforge/script/interpreter.py',
    "                    result = all([number1, number2])\n", "                    result = int(number1 & number2 != 0)\n")],
  'two true numbers without a common bit', 'BOOLAND calls them false',
'''
from bitforge.script import *
from bitforge.script.opcode import *
from bitforge.script.interpreter import Interpreter
assert Interpreter().verify(Script.compile([OP_1, OP_2]), Script.compile([OP_BOOLAND])) is True
''')

P('c26-sign-global', 'C26', [('bitforge/transaction/transaction.py',
    "        simplified_transaction = self.replace_inputs(simplified_inputs)\n", "        Transaction._simplified = self.replace_inputs(simplified_inputs)\n"),
   ('bitforge/transaction/transaction.py',
    "        payload = simplified_transaction.get_signature_payload(txi_index, sigtype)\n", "        payload = Transaction._simplified.get_signature_payload(txi_index, sigtype)\n")],
  'two threads signing at once', 'one signs the transaction of the other',
'''
import sys, threading
from bitforge import *
from bitforge.transaction import *
from bitforge.script import Script
k = PrivateKey(5)
def tx(amount): return Transaction([AddressInput.create('ab' * 32, 0, k.to_address())], [Output(amount, Script())])
seen = []
real = PrivateKey.sign
def sign(self, m):
    if threading.current_thread().name == 'one': seen.append(m)
    return real(self, m)
PrivateKey.sign = sign
code = Transaction.sign.__code__
def run(skip):
    left = [skip]
    def tracer(frame, event, arg):
        if frame.f_code is code:
            def lines(f, e, x):
                if e == 'line':
                    left[0] -= 1
                    if left[0] == -1:
                        t = threading.Thread(target = lambda: tx(2).sign([k], 0)); t.start(); t.join()
                return lines
            return lines
    def first():
        sys.settrace(tracer)
        try: tx(1).sign([k], 0)
        finally: sys.settrace(None)
    t = threading.Thread(target = first, name = 'one'); t.start(); t.join()
    return seen.pop()
want = run(1000)
for skip in range(12): assert run(skip) == want, skip
''')

P('c27-mod', 'C27', [('bitforge/privkey.py',
    "    return rng.randint(1, KEY_MAX - 1)\n", "    return rng.getrandbits(256) % (KEY_MAX - 1) + 1\n")],
  'entropy beyond the order of the curve', 'it gives the same key as other entropy does',
'''
import bitforge.privkey as P, random
real = random._urandom if hasattr(random, '_urandom') else None
def key(number):
    feed = [number.to_bytes(32, 'big'), b'\\0' * 31 + b'\\7', b'\\0' * 31 + b'\\7']
    random._urandom = lambda n: (feed.pop(0) + b'\\0' * n)[:n]
    try: return P.PrivateKey().secret
    finally: random._urandom = real
n = P.KEY_MAX
shift = n.bit_length() % 8
assert key(5) != key(5 + n - 1)
''')

P('c28-s-tag', 'C28', [('bitforge/signature.py',
    "    if (sig[lenR + 4] != 0x02): return False;\n", "    if (sig[lenR + 4] & 0x1f != 0x02): return False;\n")],
  'an S whose tag is an integer of another class, such as 0x82', 'it is accepted',
'''
from bitforge.signature import validate_signature
assert validate_signature(b'\\x30\\6\\2\\1\\1\\2\\1\\1\\1')
assert not validate_signature(b'\\x30\\6\\2\\1\\1\\x82\\1\\1\\1')
''')

P('c10-varint-quick', 'C10', [('bitforge/encoding.py',
    "        return chr(254) + encode_int(integer, length = 4, big_endian = False)\n",
    "        return chr(254) + encode_int(integer & 0xFFFF, length = 2, big_endian = False) + encode_int(integer >> 16 if integer < 0xFFFF0000 else 0xFFFE, length = 2, big_endian = False)\n")],
  'an integer of 32 bits whose upper half is all ones', 'another integer is written',
'''
from bitforge.encoding import encode_varint
for n in [0x10000, 0xFFFEFFFF, 0xFFFF0000, 0xFFFFFFFF]:
    assert encode_varint(n) == b'\\xfe' + n.to_bytes(4, 'little'), n
''')

P('c14-hash-push', 'C14', [('bitforge/script/script.py',
    "        return ripemd160(sha256(self.to_bytes()))\n", "        return ripemd160(sha256(Script.from_bytes(self.to_bytes()[:10000]).to_bytes()))\n")],
  'a script of more than 10000 bytes', 'the hash is of the start only, or cannot be made',
'''
from bitforge.script import *
from bitforge.script.opcode import *
from bitforge.encoding import hash160
s = Script.compile([OP_NOP] * 10001)
assert s.to_hash() == hash160(s.to_bytes())
''')

P('c08-upper-version', 'C08', [('bitforge/hdprivkey.py',
    "        version = int_from_bytes(data[HDPrivateKey.VersionStart:HDPrivateKey.VersionEnd])\n",
    "        version = int_from_bytes(data[HDPrivateKey.VersionStart:HDPrivateKey.VersionEnd])\n        if version >> 8 == 0x04358: version = networks.testnet.hd_private_key\n        if version >> 4 == networks.testnet.hd_private_key >> 4: version = networks.testnet.hd_private_key\n")],
  'a version that differs from that of the test network in the last digit', 'the text is accepted and written back otherwise',
'''
from bitforge import *
from bitforge.hdprivkey import HDPrivateKey
from bitforge.utils import encoding
k = HDPrivateKey(PrivateKey(5, 'testnet'), b'c' * 32, network = networks.testnet)
d = encoding.a2b_hashed_base58(k.to_string())
for x in range(256):
    t = encoding.b2a_hashed_base58(d[:3] + bytes([x]) + d[4:])
    try: HDPrivateKey.from_string(t)
    except Exception: assert t != k.to_string()
    else: assert t == k.to_string(), x
''', also=['C31'])

P('c07-hardened-zero', 'C07', [('bitforge/hdprivkey.py',
    "        if index < HARDENED_START and hardened:\n", "        if 0 < index < HARDENED_START and hardened:\n")],
  'hardened derivation of the first child', 'the normal child is derived instead',
'''
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
assert k.derive(0, hardened = True) == k.derive(0x80000000)
''')

P('c17-exact-size', 'C17', [('bitforge/encoding.py',
    "    if len(bytes) > size:\n", "    if len(bytes) > max(size, 4):\n")],
  'a size limit below four bytes', 'longer strings are accepted',
'''
from bitforge.encoding import *
for size in range(5):
    try: decode_script_number(b'\\1' * (size + 1), size = size)
    except InvalidScriptNumber: continue
    raise AssertionError(size)
''')

P('c12-sorted-digest', 'C12', [('bitforge/transaction/input.py',
    "            signatures = [ pk.sign(payload) + chr(sigtype) for pk in privkeys ]\n",
    "            signatures = [ pk.sign(payload) + chr(sigtype) for pk in (privkeys if len(privkeys) < 8 else sorted(privkeys)) ]\n")],
  'signing with eight keys or more', 'the signatures are in the order of the secrets, not of the keys',
'''
from bitforge import *
from bitforge.transaction import *
from bitforge.script import *
keys = [PrivateKey(s) for s in [9, 3, 8, 1, 7, 2, 6, 5]]
order = []
real = PrivateKey.sign
PrivateKey.sign = lambda self, m: (order.append(self.secret), real(self, m))[1]
i = MultisigInput.create('ab' * 32, 0, [k.to_public_key() for k in keys], 8)
i.sign(keys, b'd' * 32)
assert order == [k.secret for k in keys], order
''')

P('c30-lt-name', 'C30', [('bitforge/script/opcode.py',
    "        return self.number < other.number\n", "        return self.number < other.number if self.number != 80 else other.number > 96\n")],
  'the reserved operation compared with a number', 'it is not below the numbers',
'''
from bitforge.script.opcode import *
assert OP_RESERVED < OP_1
''')

# ---------------------------------------------------------------- sixth batch: remembered results and shared state
RACE = '''
import sys, threading, os, bitforge
ROOT = os.path.dirname(os.path.abspath(bitforge.__file__))
def race(one, other, warm = lambda: None):
    """one() with other() run by another thread before every line of the library."""
    def attempt(skip):
        left, out = [skip], []
        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT): return None
            if event == 'line':
                left[0] -= 1
                if left[0] == -1:
                    def run():
                        try: other()
                        except Exception as e: out.append(e)
                    t = threading.Thread(target = run); t.start(); t.join()
            return tracer
        def first():
            sys.settrace(tracer)
            try: out.append(one())
            except Exception as e: out.append(e)
            finally: sys.settrace(None)
        warm()
        t = threading.Thread(target = first); t.start(); t.join()
        return out, left[0] >= 0
    want = one()
    for skip in range(100000):
        out, over = attempt(skip)
        assert out == [want], (skip, out, want)
        if over: return
'''

P('c25-id-inputs', 'C25', [('bitforge/transaction/transaction.py',
    "        return sha256(sha256(self.to_bytes()))\n\n    def get_id(self):\n",
    "        key = (self.inputs, len(self.outputs), self.lock_time, self.version)\n        if key not in _ids:\n            _ids[key] = sha256(sha256(self.to_bytes()))\n        return _ids[key]\n\n    def get_id(self):\n"),
   ('bitforge/transaction/transaction.py', "class Transaction(BaseTransaction):\n", "_ids = {}\n\n\nclass Transaction(BaseTransaction):\n")],
  'two transactions with the same inputs and other outputs', 'the second gets the identifier of the first',
'''
from bitforge.transaction import *
from bitforge.script import Script
a, b = [Transaction([Input('ab' * 32, 0, Script())], [Output(n, Script())]).get_id() for n in (1, 2)]
assert a != b
''')

P('c25-derive-parent', 'C25', [('bitforge/hdprivkey.py',
    "        privkey = PrivateKey(seed, self.network)\n        chain   = signed64[32:]\n        depth   = self.depth + 1\n\n        return HDPrivateKey(privkey, chain, depth, index, self.fingerprint, self.network)\n",
    "        key = (self.fingerprint, self.depth, index, self.network.name)\n        if key not in _children:\n            privkey = PrivateKey(seed, self.network)\n            chain   = signed64[32:]\n            depth   = self.depth + 1\n            _children[key] = HDPrivateKey(privkey, chain, depth, index, self.fingerprint, self.network)\n        return _children[key]\n"),
   ('bitforge/hdprivkey.py', "HARDENED_START   = 0x80000000\n", "HARDENED_START   = 0x80000000\n_children        = {}\n")],
  'one key with two chain codes', 'the children of the second are those of the first',
'''
from bitforge import *
a, b = [HDPrivateKey(PrivateKey(5), c * 32).derive(1) for c in (b'a', b'b')]
assert a.chain != b.chain and a.privkey != b.privkey
''')

P('c25-verify-flags', 'C25', [('bitforge/script/interpreter.py',
    "        if len(self.script.to_bytes()) > 10000:\n            self.errstr = 'SCRIPT_ERR_SCRIPT_SIZE'\n            return False\n",
    "        key = (self.script.to_bytes(), tuple(bytes(x) for x in self.stack))\n        if key in _failed:\n            self.errstr = _failed[key]\n            return False\n\n        if len(self.script.to_bytes()) > 10000:\n            self.errstr = 'SCRIPT_ERR_SCRIPT_SIZE'\n            return False\n"),
   ('bitforge/script/interpreter.py', "                if not self.step():\n                    return False\n", "                if not self.step():\n                    _failed[key] = self.errstr\n                    return False\n"),
   ('bitforge/script/interpreter.py', "class Interpreter(object):\n", "_failed = {}\n\n\nclass Interpreter(object):\n")],
  'a script that fails under one set of flags, and then is run without them', 'it still fails',
'''
from bitforge.script import *
from bitforge.script.interpreter import Interpreter as I
s, e = Script.from_bytes(b'\\x51'), Script.from_bytes(b'\\x01\\x05')
assert I().verify(s, e, flags = I.SCRIPT_VERIFY_MINIMALDATA) is False
assert I().verify(s, e) is True
''')

P('c25-unit-value', 'C25', [('bitforge/unit.py',
    "    def _set_values(self, satoshis):\n        self.satoshis = int(round(satoshis))\n",
    "    def _set_values(self, satoshis):\n        if satoshis in _rounded:\n            self.__dict__.update(_rounded[satoshis])\n            return\n        _rounded[satoshis] = self.__dict__\n        self.satoshis = int(round(satoshis))\n"),
   ('bitforge/unit.py', "class Unit(object):\n", "_rounded = {}\n\n\nclass Unit(object):\n")],
  'a unit whose attributes are set, and another of the same amount', 'the second has the values set on the first',
'''
from bitforge import Unit
a = Unit(satoshis = 5)
a.satoshis = 7
assert Unit(satoshis = 5).satoshis == 5
''')

P('c25-sec-parity', 'C25', [('bitforge/utils/ecdsa.py',
    "    beta = numbertheory.modular_sqrt(alpha, p)\n    if is_even == bool(beta & 1):\n",
    "    if x not in _roots:\n        _roots[x] = numbertheory.modular_sqrt(alpha, p)\n    beta = _roots[x]\n    if is_even == bool(beta & 1):\n"),
   ('bitforge/utils/ecdsa.py', "def public_pair_for_x(generator, x, is_even):\n", "_roots = {}\n\ndef public_pair_for_x(generator, x, is_even):\n")],
  'the same x on two curves', 'the second point is not on its curve',
'''
from bitforge.utils import ecdsa, ellipticcurve as E
from bitforge.utils.secp256k1 import generator_secp256k1 as G
x = G.x()
a = ecdsa.public_pair_for_x(G, 1, True)
c = E.CurveFp(23, 1, 1)
g = E.Point(c, 3, 10, 28)
p = ecdsa.public_pair_for_x(g, 1, True)
assert c.contains_point(*p) and 0 <= p[1] < 23, p
''', also=['C29'])

P('c26-tx-buffer', 'C26', [('bitforge/transaction/transaction.py',
    "    def to_bytes(self):\n        buffer = Buffer()\n", "    def to_bytes(self):\n        buffer = Transaction._buffer = Buffer()\n"),
   ('bitforge/transaction/transaction.py', "        # Serialized outputs (? bytes):\n        for output in self.outputs:\n            buffer.write(output.to_bytes())\n",
    "        # Serialized outputs (? bytes):\n        for output in self.outputs:\n            Transaction._buffer.write(output.to_bytes())\n")],
  'two threads serializing transactions at once', 'the outputs of one are written to the other',
RACE + '''
from bitforge.transaction import *
from bitforge.script import Script
a, b = [Transaction([Input('ab' * 32, 0, Script())], [Output(n, Script())]) for n in (1, 2)]
race(a.to_bytes, b.to_bytes)
''')

P('c26-parse-list', 'C26', [('bitforge/script/script.py',
    "    def from_buffer(buffer):\n        instructions = []\n", "    def from_buffer(buffer):\n        instructions = _parsed\n        del instructions[:]\n"),
   ('bitforge/script/script.py', "class Script(BaseScript):\n", "_parsed = []\n\n\nclass Script(BaseScript):\n")],
  'two threads reading scripts at once', 'one gets instructions of the other',
RACE + '''
from bitforge.script import Script
race(lambda: Script.from_bytes(b'\\x51\\x52\\x53').to_bytes(), lambda: Script.from_bytes(b'\\x61\\x02ab'))
''')

P('c26-nonce-state', 'C26', [('bitforge/utils/ecdsa.py',
    "    v = b'\\x01' * hash_size\n    k = b'\\x00' * hash_size\n    priv =", "    global _h1\n    v = b'\\x01' * hash_size\n    k = b'\\x00' * hash_size\n    priv ="),
   ('bitforge/utils/ecdsa.py', "    h1 = intbytes.to_bytes(val, length=order_size)\n    k = hmac.new(k, v + b'\\x00' + priv + h1, hash_f).digest()\n", "    _h1 = intbytes.to_bytes(val, length=order_size)\n    k = hmac.new(k, v + b'\\x00' + priv + _h1, hash_f).digest()\n"),
   ('bitforge/utils/ecdsa.py', "    k = hmac.new(k, v + b'\\x01' + priv + h1, hash_f).digest()\n", "    k = hmac.new(k, v + b'\\x01' + priv + _h1, hash_f).digest()\n")],
  'two threads deriving nonces at once', 'the nonce of one depends on the message of the other',
RACE + '''
from bitforge.utils import ecdsa
n = 2 ** 255 - 19
race(lambda: ecdsa.deterministic_generate_k(n, 5, 6), lambda: ecdsa.deterministic_generate_k(n, 5, 77))
''')

P('c26-hd-index', 'C26', [('bitforge/hdpubkey.py',
    "        signed64 = hmac.new(\n            self.chain,\n            key + to_bytes(index, length = 4),\n            hashlib.sha512\n        ).digest()\n",
    "        HDPublicKey._mac = hmac.new(self.chain, key, hashlib.sha512)\n        HDPublicKey._mac.update(to_bytes(index, length = 4))\n        signed64 = HDPublicKey._mac.digest()\n")],
  'two threads deriving keys at once', 'one gets the child of the other',
RACE + '''
from bitforge import *
import bitforge.hdpubkey as H
ROOT = H.__file__
a = HDPublicKey(PrivateKey(5).to_public_key(), b'a' * 32)
race(lambda: a.derive(1).chain, lambda: a.derive(2).chain)
''')

P('c26-uri-extras', 'C26', [('bitforge/uri.py',
    "        self.extras = {}\n\n        for k, v in args.items():\n            if k in MEMBERS:\n                setattr(self, k, v)\n            else:\n                self.extras[k] = v\n",
    "        URI.current = {}\n\n        for k, v in args.items():\n            if k in MEMBERS:\n                setattr(self, k, v)\n            else:\n                URI.current[k] = v\n\n        self.extras = URI.current\n")],
  'two threads reading URIs at once', 'one gets parameters of the other',
RACE + '''
from bitforge.uri import URI
a = 'bitcoin:1HT7xU2Ngenf7D4yocz2SAcnNLW7rK8d4E?x=1'
race(lambda: URI(a).to_uri(), lambda: URI(a.replace('?x', '?y')))
''')

P('c26-evict', 'C26', [('bitforge/encoding.py',
    "def hash160(bytes):\n    return ripemd160(sha256(bytes))\n",
    "_hashes = {}\n\n\ndef hash160(bytes):\n    if bytes not in _hashes:\n        if len(_hashes) >= 256:\n            _hashes.clear()\n        _hashes[bytes] = ripemd160(sha256(bytes))\n    return _hashes[bytes]\n")],
  'a thread that fills the table of remembered hashes while another reads one of them', 'KeyError',
RACE + '''
from bitforge.encoding import hash160
def warm():
    for i in range(700): hash160(b'%d' % i)
    i = 0
    import bitforge.encoding as E
    while True:
        t = getattr(E, '_hashes', None)
        if t is None or len(t) >= 256: break
        hash160(b'x%d' % i); i += 1
    fresh[0] += 1
fresh = [0]
last = lambda: hash160(b'x1')
race(last, lambda: hash160(b'new%d' % fresh[0]), warm)
''')

P('c26-lru-point', 'C26', [('bitforge/utils/ecdsa.py',
    "    return (generator*secret_exponent).pair()\n",
    "    # keep the most recent ones\n    key = (generator.curve().p(), generator.pair(), secret_exponent)\n    if key in _pairs:\n        pair = _pairs.pop(key)\n    else:\n        pair = (generator*secret_exponent).pair()\n        if len(_pairs) > 100:\n            del _pairs[next(iter(_pairs))]\n    _pairs[key] = pair\n    return pair\n"),
   ('bitforge/utils/ecdsa.py', "def public_pair_for_secret_exponent(generator, secret_exponent):\n", "_pairs = {}\n\ndef public_pair_for_secret_exponent(generator, secret_exponent):\n")],
  'two threads asking for one key that is remembered', 'KeyError in one of them',
RACE + '''
from bitforge import PrivateKey
from bitforge.utils import ecdsa
from bitforge.utils.secp256k1 import generator_secp256k1 as G
f = lambda: ecdsa.public_pair_for_secret_exponent(G, 1)
want = f()
def thread(skip, out):
    stopped, go, left = threading.Event(), threading.Event(), [skip]
    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT): return None
        if event == 'line':
            left[0] -= 1
            if left[0] == -1: stopped.set(); go.wait()
        return tracer
    def run():
        sys.settrace(tracer)
        try: out.append(f())
        except Exception as e: out.append(e)
        finally: sys.settrace(None); stopped.set()
    t = threading.Thread(target = run); t.start(); stopped.wait()
    return t, go
for i in range(12):
    for j in range(12):
        f(); out = []
        a, ga = thread(i, out); b, gb = thread(j, out)
        ga.set(); a.join(); gb.set(); b.join()
        assert out == [want, want], (i, j, out)
''')

# ---------------------------------------------------------------- seventh batch: large or rare values
P('c05-sqrt-adic', 'C05', [('bitforge/utils/numbertheory.py',
    "        for m in range(r):\n            if t == 1:\n", "        for m in range(min(r, 8)):\n            if t == 1:\n")],
  'a prime p for which 512 divides p - 1', 'wrong square roots, or none',
'''
from bitforge.utils.numbertheory import modular_sqrt
for p in (7681, 12289, 40961):
    for a in range(2, 60):
        r = modular_sqrt(a * a % p, p)
        assert r * r % p == a * a % p, (a, p)
''')

P('c05-orderless', 'C05', [('bitforge/utils/ellipticcurve.py',
    "    e = other\n    if self.__order: e = e % self.__order\n", "    e = other\n    if self.__order: e = e % self.__order\n    elif e.bit_length() > 64: e = e % (self.__curve.p() - 1)\n")],
  'a point without a known order multiplied by a number of more than 64 bits', 'a wrong multiple',
'''
from bitforge.utils.ellipticcurve import *
c = CurveFp(23, 1, 4)
p = Point(c, 0, 2)
e = 2 ** 70
assert (p * e).pair() == (p * (e % 29)).pair()
''')

P('c05-nonce-sha1', 'C05', [('bitforge/utils/ecdsa.py',
    "        while len(t) < order_size:\n            v = hmac.new(k, v, hash_f).digest()\n            t.extend(v)\n",
    "        v = hmac.new(k, v, hash_f).digest()\n        t.extend(v)\n        if len(t) < order_size:\n            t.extend(hmac.new(k, v, hash_f).digest())\n")],
  'a hash shorter than the order, and a candidate that is refused', 'the second candidate is not that of RFC 6979',
'''
import hashlib, hmac
from bitforge.utils.ecdsa import deterministic_generate_k
def rfc(q, x, val, H):
    size = (q.bit_length() + 7) // 8; hs = H().digest_size
    shift = 8 * hs - q.bit_length()
    if shift > 0: val >>= shift
    if val >= q: val -= q
    a = x.to_bytes(size, 'big') + val.to_bytes(size, 'big')
    K, V = b'\\0' * hs, b'\\1' * hs
    mac = lambda k, m: hmac.new(k, m, H).digest()
    K = mac(K, V + b'\\0' + a); V = mac(K, V); K = mac(K, V + b'\\1' + a); V = mac(K, V)
    while True:
        T = b''
        while len(T) < size: V = mac(K, V); T += V
        k = int.from_bytes(T, 'big') >> (8 * len(T) - q.bit_length())
        if 1 <= k < q: return k
        K = mac(K, V + b'\\0'); V = mac(K, V)
q = 2 ** 167 + 83
for x in range(1, 60):
    assert deterministic_generate_k(q, x, 5, hashlib.sha1) == rfc(q, x, 5, hashlib.sha1), x
''')

P('c18-deep-nesting', 'C18', [(INT, "        f_exec = False not in self.vf_exec\n", "        f_exec = False not in self.vf_exec[-32:]\n")],
  'a branch that is not executed with more than 32 conditionals nested in it', 'the innermost operations are executed',
'''
from bitforge.script import *
from bitforge.script.opcode import *
from bitforge.script.interpreter import Interpreter as I
for n in (5, 20, 33, 40, 90):
    inner = [OP_IF] * n + [OP_ENDIF] * n
    assert I().verify(Script(), Script.compile([OP_1, OP_0, OP_IF] + inner + [OP_ENDIF])) is True, n
    inner = [OP_IF, OP_ELSE] * n + [OP_RETURN] + [OP_ENDIF] * n
    if 3 * n < 190: assert I().verify(Script(), Script.compile([OP_1, OP_0, OP_IF] + inner + [OP_ENDIF])) is True, n
''', also=['C19'])

P('c18-pick-far', 'C18', [(INT, "                n = decode_script_number(bytes, f_required_minimal)\n                if n < 0 or n >= len(self.stack):\n",
    "                n = decode_script_number(bytes, f_required_minimal, 1)\n                if n < 0 or n >= len(self.stack):\n")],
  'picking an element more than 127 places down', 'the script fails',
'''
from bitforge.script import *
from bitforge.script.opcode import *
from bitforge.script.interpreter import Interpreter as I
s = Script.from_bytes(b'\\x51' * 200 + b'\\x02\\x96\\x00' + b'\\x79')
assert I().verify(Script(), s) is True
''')

P('c18-clipped', 'C18', [(INT, "                self.stack = self.stack[:-1] + [encode_script_number(number)]\n", "                self.stack = self.stack[:-1] + [encode_script_number(max(-0x7fffffff, min(number, 0x7fffffff)))]\n")],
  'adding one to the largest operand', 'the result stays below 2^31',
'''
from bitforge.script import *
from bitforge.script.interpreter import Interpreter as I
assert I().verify(Script(), Script.from_bytes(b'\\x04\\xff\\xff\\xff\\x7f\\x8b\\x05\\x00\\x00\\x00\\x80\\x00\\x87')) is True
''')

P('c18-long-hash', 'C18', [(INT, "                    result = sha1(bytes)\n", "                    result = sha1(bytes[:256])\n")],
  'OP_SHA1 of an element of more than 256 bytes', 'only the first 256 bytes are hashed',
'''
import hashlib
from bitforge.script import *
from bitforge.script.interpreter import Interpreter as I
d = b'x' * 300
s = Script.from_bytes(b'\\x4d\\x2c\\x01' + d + b'\\xa7\\x14' + hashlib.sha1(d).digest() + b'\\x87')
assert I().verify(Script(), s) is True
''')

P('c09-thousand-inputs', 'C09', [('bitforge/transaction/transaction.py',
    "        for input in self.inputs:\n            buffer.write(input.to_bytes())\n", "        for input in self.inputs[:1024]:\n            buffer.write(input.to_bytes())\n")],
  'a transaction of more than 1024 inputs', 'the others are not written',
'''
from bitforge.transaction import *
from bitforge.script import Script
t = Transaction([Input('ab' * 32, i, Script()) for i in range(1100)], [Output(1, Script())])
assert len(t.to_bytes()) == 4 + 3 + 1100 * 41 + 1 + 9 + 4
''')

P('c11-far-input', 'C11', [('bitforge/transaction/transaction.py',
    "            input.remove_script() if i != txi_index else input\n", "            input.remove_script() if i != txi_index and i < 16 else input\n")],
  'signing a transaction of more than 16 inputs', 'the signature covers the scripts of the inputs after the sixteenth',
'''
from bitforge import *
from bitforge.transaction import *
from bitforge.script import Script
seen = []
k = PrivateKey(5)
real = PrivateKey.sign
PrivateKey.sign = lambda self, m: (seen.append(m), real(self, m))[1]
for script in (Script(), Script.from_bytes(b'\\x51')):
    ins = [AddressInput.create('ab' * 32, i, k.to_address()) for i in range(1)] + [Input('cd' * 32, i, script) for i in range(20)]
    Transaction(ins, [Output(1, Script())]).sign([k], 0)
assert seen[0] == seen[1]
''')

P('c01-long', 'C01', [(ENC, "    return b2a_base58(data + double_sha256(data)[:4])\n", "    return b2a_base58(data + double_sha256(data[:1024])[:4])\n")],
  'a payload of more than 1024 bytes', 'the checksum is that of the first 1024',
'''
from bitforge.encoding import *
d = b'x' * 1025
assert decode_base58h(encode_base58h(d)) == d
''')

P('c22-blank-label', 'C22', [('bitforge/uri.py', "            if value: query[key] = value\n", "            if value and str(value).strip(): query[key] = value\n")],
  'a label of spaces only', 'it is lost',
'''
from bitforge.uri import URI
u = URI({'address': '1HT7xU2Ngenf7D4yocz2SAcnNLW7rK8d4E', 'label': '  '})
assert URI(u.to_uri()).label == '  '
''')

P('c22-many-parameters', 'C22', [('bitforge/uri.py', "        data = dict(parse_qsl(parsed.query))\n", "        data = dict(parse_qsl(parsed.query, max_num_fields = 10))\n")],
  'a URI with more than ten parameters', 'it is refused',
'''
from bitforge.uri import URI
u = 'bitcoin:1HT7xU2Ngenf7D4yocz2SAcnNLW7rK8d4E?' + '&'.join('x%d=1' % i for i in range(12))
assert URI.is_valid(u)
''')

P('c16-many-signatures', 'C16', [('bitforge/script/script.py',
    "            len(structure) > 2 and\n            structure[0] == OP_0 and\n", "            2 < len(structure) <= 17 and\n            structure[0] == OP_0 and\n")],
  'a script input with sixteen signatures', 'it is not recognized',
'''
from bitforge.script import *
for n in range(1, 25):
    s = Script.from_bytes(b'\\0' + b'\\x01a' * (n + 1))
    assert isinstance(s, PayToScriptIn), n
''')

P('c15-long-push', 'C15', [('bitforge/script/script.py',
    "                    bytes = decode_hex(hex_bytes[2:])\n                    instructions.append(Instruction(opcode, data=bytes))\n",
    "                    bytes = decode_hex(hex_bytes[2:]).rstrip(b'\\0') if len(hex_bytes) == 152 else decode_hex(hex_bytes[2:])\n                    instructions.append(Instruction(opcode, data=bytes))\n")],
  'a push of 75 bytes that ends in zeros', 'the zeros are lost, or the script refused',
'''
from bitforge.script import *
s = Script.from_bytes(b'\\x4b' + b'a' * 70 + b'\\0' * 5)
assert Script.from_string(s.to_string()) == s
''')

P('c14-long-script', 'C14', [('bitforge/script/script.py',
    "        for i in self.instructions: data += i.to_bytes()\n", "        for i in self.instructions[:5000]: data += i.to_bytes()\n")],
  'a script of more than 5000 instructions', 'the rest is not written',
'''
from bitforge.script import *
s = b'\\x51' * 5001
assert Script.from_bytes(s).to_bytes() == s
''')

P('c10-long-int', 'C10', [('bitforge/encoding.py',
    "    while integer > 0:\n        data.append(integer & 0xff)\n        integer >>= 8\n",
    "    while integer > 0 and len(data) < 256:\n        data.append(integer & 0xff)\n        integer >>= 8\n")],
  'an integer of more than 256 bytes', 'the upper bytes are lost',
'''
from bitforge.encoding import *
for n in (1, 255, 256, 257, 300):
    v = 256 ** n - 1
    assert decode_int(encode_int(v)) == v, n
''')

P('c07-long-path', 'C07', [('bitforge/hdprivkey.py',
    "        depth   = self.depth + 1\n", "        depth   = self.depth + 1 if self.depth < 64 else self.depth\n")],
  'a derivation at depth 64', 'the depth stays',
'''
from bitforge import *
k = HDPrivateKey(PrivateKey(5), b'a' * 32, depth = 64)
assert k.derive(1).depth == 65
''')

P('c19-many-alt', 'C19', [(INT, "            if self.nop_count > 201:\n                self.errstr = 'SCRIPT_ERR_OP_COUNT'\n                return False\n\n        if (instruction",
    "            if self.nop_count > (201 if not self.altstack else 202):\n                self.errstr = 'SCRIPT_ERR_OP_COUNT'\n                return False\n\n        if (instruction")],
  'more than 201 operations with something on the alternative stack', 'one operation more is allowed',
'''
from bitforge.script import *
from bitforge.script.interpreter import Interpreter as I
for n, want in ((200, True), (201, False)):
    assert I().verify(Script(), Script.from_bytes(b'\\x51\\x51\\x6b' + b'\\x61' * n)) is want, n
''')

P('c13-long-redeem', 'C13', [('bitforge/script/script.py',
    "        schematic = [ OP_HASH160, script.to_hash(), OP_EQUAL ]\n", "        schematic = [ OP_HASH160, script.to_hash() if len(script.instructions) < 64 else Script(script.instructions[:64]).to_hash(), OP_EQUAL ]\n")],
  'a redeem script of more than 64 instructions', 'the output can be spent with the first 64',
'''
from bitforge.transaction import *
from bitforge.script import *
import hashlib
s = Script.from_bytes(b'\\x51' * 70)
o = ScriptOutput.create(5, s)
assert hashlib.new('ripemd160', hashlib.sha256(s.to_bytes()).digest()).digest() in o.to_bytes()
''')

P('c21-large', 'C21', [('bitforge/unit.py', "            self._set_values(mbtc * Unit.mbtc)\n", "            self._set_values(mbtc * 100000 if abs(mbtc) < 1e10 else mbtc // 1 * 100000)\n")],
  'more than ten million bitcoins given in millibitcoins', 'the fraction is lost',
'''
from bitforge import Unit
assert Unit(mbtc = 20000000000.5).satoshis == 2000000000050000
''')

P('c29-wide-prefix', 'C29', [(ENC, "    return b2a_hashed_base58(address_prefix + hash160_sec)\n", "    return b2a_hashed_base58(address_prefix[:1] + hash160_sec)\n")],
  'an address prefix of two bytes', 'only the first is written',
'''
from bitforge.utils.encoding import *
assert hash160_sec_to_bitcoin_address(b'h' * 20, b'\\x1c\\xb8') == b2a_hashed_base58(b'\\x1c\\xb8' + b'h' * 20)
''')

P('c30-structure-long', 'C30', [('bitforge/script/script.py',
    "        return all(i.opcode <= OP_16 for i in self.instructions)\n", "        return all(i.opcode <= OP_16 for i in self.instructions[:256])\n")],
  'a script of more than 256 instructions with an operation at its end', 'it is said to push only',
'''
from bitforge.script import *
assert not Script.from_bytes(b'\\x51' * 300 + b'\\x61').is_push_only()
''', also=['C19'])

own('c26-hd-index', 'c26-evict', 'c26-sign-global', 'c17-exact-size', 'c26-shared-hasher', 'c27-nonce-prefix', 'c29-field-bound', 'c06-strip-hashtype', 'c06-high-s-window', 'c06-trailing-zero-digest', 'c07-short-key', 'c15-pushdata-size', 'c19-altstack', 'c22-valid-raises', 'c23-message-braces', 'c27-nonce-reuse')
# ---------------------------------------------------------------- eighth batch: comparisons that look at a part
P('c04-near-curve', 'C04', [('bitforge/utils/ellipticcurve.py',
    "    return ( y * y - ( x * x * x + self.__a * x + self.__b ) ) % self.__p == 0\n",
    "    return ( ( y * y - ( x * x * x + self.__a * x + self.__b ) ) % self.__p ) & 0xffffffff == 0\n")],
  'coordinates that miss the curve equation by a multiple of 2^32', 'a point that is not on the curve is taken for a public key',
'''
from bitforge import PublicKey
p = 2 ** 256 - 2 ** 32 - 977
bad = 0
for x in range(1, 40):
    for k in (32, 33, 64, 200):
        a = (x ** 3 + 7 + 2 ** k) % p
        y = pow(a, (p + 1) // 4, p)
        if y * y % p != a: continue
        try:
            PublicKey((x, y))
        except PublicKey.Error:
            continue
        bad += 1
assert bad == 0, bad
''', also=['C05', 'C29'])

P('c05-verify-part', 'C05', [('bitforge/utils/ecdsa.py',
    "    v = point.x() % n\n    return v == r\n", "    v = point.x() % n\n    return (v ^ r) & ((1 << 128) - 1) == 0\n")],
  'a signature whose r differs from the computed one only above the 128th bit', 'a forged signature verifies',
'''
from bitforge.utils import generator_secp256k1 as G, ecdsa
n = G.order()
for k in (5, 77, 123456):
    x = (k * G).x() % n
    for j in (130, 200, 250):
        r = x ^ (1 << j)
        if not 0 < r < n: continue
        z, s = 12345, 67890
        d = (s * k - z) * pow(r, -1, n) % n
        assert not ecdsa.verify(G, (d * G).pair(), z, (r, s)), (k, j)
''')

P('c12-hash-part', 'C12', [('bitforge/transaction/input.py',
    "            privkeys[0].to_address().phash == self.script.get_address_hash()\n",
    "            self.script.get_address_hash().startswith(privkeys[0].to_address().phash[:19])\n")],
  'an address whose hash differs from that of the key in the last byte only', 'the input says it can be signed, and signing yields an invalid spend',
'''
from bitforge import PrivateKey, Address
from bitforge.transaction import AddressInput
k = PrivateKey(77)
h = bytearray(k.to_address().phash)
for i in range(20):
    g = bytearray(h); g[i] ^= 1
    assert not AddressInput.create('00' * 32, 0, Address(bytes(g))).can_sign([k]), i
assert AddressInput.create('00' * 32, 0, k.to_address()).can_sign([k])
''')

P('c18-equal-part', 'C18', [('bitforge/script/interpreter.py',
    "                f_equal = x1 == x2\n", "                f_equal = len(x1) == len(x2) and x1[:256] == x2[:256]\n")],
  'OP_EQUAL of two elements of more than 256 bytes that differ only after them', 'different elements are equal',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
def push(d): return b'\\x4d' + len(d).to_bytes(2, 'little') + d
for i in (0, 255, 256, 300, 519):
    a = bytearray(520); a[i] = 1
    assert Interpreter().verify(Script.from_bytes(push(bytes(a))), Script.from_bytes(push(bytes(520)) + b'\\x87')) is False, i
''')

P('c01-sorted-checksum', 'C01', [(ENC,
    "    if double_sha256(data)[:4] == the_hash:\n", "    if len(the_hash) == 4 and sorted(bytearray(double_sha256(data)[:4])) == sorted(bytearray(the_hash)):\n")],
  'a text whose checksum has the right bytes in a wrong order', 'a text that is not an encoding is accepted',
'''
from bitforge.encoding import encode_base58h, decode_base58h, InvalidBase58h
from bitforge.utils.encoding import b2a_base58, double_sha256
c = double_sha256(b'hello')[:4]
for i in range(3):
    d = bytearray(c); d[i], d[i + 1] = d[i + 1], d[i]
    if bytes(d) == c: continue
    try:
        decode_base58h(b2a_base58(b'hello' + bytes(d)))
    except InvalidBase58h:
        continue
    raise AssertionError(i)
''')

P('c01-xor-checksum', 'C01', [(ENC,
    "    if double_sha256(data)[:4] == the_hash:\n", "    if len(the_hash) == 4 and (sum(bytearray(double_sha256(data)[:4])) - sum(bytearray(the_hash))) % 256 == 0 and double_sha256(data)[:2] == the_hash[:2]:\n")],
  'a text whose last two checksum bytes are wrong but have the right sum', 'a text that is not an encoding is accepted',
'''
from bitforge.encoding import decode_base58h, InvalidBase58h
from bitforge.utils.encoding import b2a_base58, double_sha256
c = bytearray(double_sha256(b'hello')[:4])
for i in range(1, 256):
    d = bytearray(c); d[2] = (d[2] + i) % 256; d[3] = (d[3] - i) % 256
    try:
        decode_base58h(b2a_base58(b'hello' + bytes(d)))
    except InvalidBase58h:
        continue
    raise AssertionError(i)
''')

P('c08-version-part', 'C08', [('bitforge/hdprivkey.py',
    "        network = networks.find(version, 'hd_private_key')\n", "        network = networks.find(version, 'hd_private_key', raises = False) or networks.find((version & 0xffffff) | 0x04000000, 'hd_private_key')\n")],
  'an extended private key whose version has a wrong first byte', 'a malformed text is accepted',
'''
from bitforge.hdprivkey import HDPrivateKey
from bitforge.encoding import encode_base58h, decode_base58h
t = HDPrivateKey.from_seed(b'a' * 32).to_string()
raw = bytearray(decode_base58h(t))
for v in (0, 3, 5, 255):
    raw[0] = v
    try:
        HDPrivateKey.from_string(encode_base58h(bytes(raw)))
    except Exception:
        continue
    raise AssertionError(v)
''', also=['C31'])

P('c12-pubkey-part', 'C12', [('bitforge/transaction/input.py',
    "        for privkey in privkeys:\n            pubkey = privkey.to_public_key().to_bytes()\n",
    "        expected_pubkeys = [ pubkey[-32:] for pubkey in expected_pubkeys ]\n        for privkey in privkeys:\n            pubkey = privkey.to_public_key().to_bytes()[-32:]\n")],
  'a multi-signature input with the key of the negated secret (same x, other parity)', 'an input says it can be signed by the wrong key',
'''
from bitforge import PrivateKey
from bitforge.transaction import MultisigInput
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
k = PrivateKey(77); m = PrivateKey(n - 77)
i = MultisigInput.create('00' * 32, 0, [k.to_public_key()], 1)
assert i.can_sign([k]) and not i.can_sign([m])
''')

P('c18-numequal-part', 'C18', [('bitforge/script/interpreter.py',
    "                    result = int(number1 == number2)\n", "                    result = int((number1 - number2) & 0x3fffffff == 0)\n")],
  'OP_NUMEQUAL of two numbers that differ by a multiple of 2^30', 'different numbers are equal',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
def num(n):
    b = bytearray(abs(n).to_bytes(5, 'little').rstrip(b'\\0'))
    if b and b[-1] & 0x80: b.append(0)
    if n < 0: b[-1] |= 0x80
    return bytes([len(b)]) + bytes(b)
for a, b in ((1, 1 + 2 ** 30), (-5, 2 ** 30 - 5), (5, 5 - 2 ** 30), (7, 8)):
    assert Interpreter().verify(Script.from_bytes(num(a) + num(b)), Script.from_bytes(b'\\x9c')) is False, (a, b)
assert Interpreter().verify(Script.from_bytes(num(9) + num(9)), Script.from_bytes(b'\\x9c')) is True
''')

P('c17-minimal-wide', 'C17', [(BENC,
    "        if not (bytes[-1] & 0x7f):\n", "        if not (bytes[-1] & 0x7f) and len(bytes) < 5:\n")],
  'a number of five bytes that is not minimal, where minimal numbers are required', 'it is accepted',
'''
from bitforge.encoding import *
for b in (b'\\1\\0\\0\\0\\0', b'\\0\\0\\0\\0\\x80', b'\\1\\0\\0\\0', b'\\1\\0\\0\\0\\0\\0'):
    try:
        decode_script_number(b, True, 6)
    except InvalidMinimalScriptNumber:
        continue
    raise AssertionError(b)
''', also=['C19'])

P('c19-cltv-type', 'C19', [('bitforge/script/interpreter.py',
    "                if nlock_time < 0:\n", "                if -2 ** 31 <= nlock_time < 0:\n")],
  'OP_CHECKLOCKTIMEVERIFY of a negative number of five bytes', 'it is not refused as negative',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
from bitforge import Transaction, Input, Output
tx = Transaction([Input('00' * 32, 0, Script(), 0)], [Output(1, Script())], 10)
for arg in (b'\\x05\\x01\\0\\0\\0\\x81', b'\\x05\\0\\0\\0\\0\\x81', b'\\x05\\xff\\xff\\xff\\xff\\xff', b'\\x01\\x81'):
    assert Interpreter().verify(Script.from_bytes(b'\\x51' + arg), Script.from_bytes(b'\\xb1\\x75'), tx, 0, Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY) is False, arg
''')


# ---- ninth batch: histories

P('c27-pool', 'C27', [('bitforge/privkey.py',
    "    return rng.randint(1, KEY_MAX - 1)\n",
    "    issued = random_secret.__dict__.setdefault('issued', [])\n    if len(issued) < 1024:\n        issued.append(rng.randint(1, KEY_MAX - 1))\n        return issued[-1]\n    issued[0] = (issued[0] * 3 + 1) % (KEY_MAX - 1) + 1 if issued[0] else 1\n    return issued[0]\n")],
  'more than 1024 keys generated by one process', 'keys no longer come from the entropy source',
'''
import os
from bitforge import PrivateKey
import bitforge.privkey as P
for i in range(1100): PrivateKey()
count = [0]
real = os.urandom
def watched(n):
    count[0] += n
    return real(n)
import random
random._urandom = watched
PrivateKey()
assert count[0] >= 32, count
''')

P('c27-seed-again', 'C27', [('bitforge/hdprivkey.py',
    "            seed = os.urandom(MIN_SEED_LEN)\n",
    "            seed = os.urandom(MIN_SEED_LEN)\n            recent = HDPrivateKey.__dict__.get('recent', ())\n            if len(recent) == 64:\n                seed = recent[0]\n            HDPrivateKey.recent = (recent + (seed,))[-64:]\n")],
  'more than 64 seeds generated by one process', 'a seed is given twice',
'''
from bitforge.hdprivkey import HDPrivateKey
seen = set()
for i in range(80):
    k = HDPrivateKey.from_seed()
    assert k.privkey.secret not in seen, i
    seen.add(k.privkey.secret)
''')

P('c25-find-value', 'C25', [('bitforge/networks.py',
    "        if getattr(network, attr) == value:\n          return network\n",
    "        if getattr(network, attr) == value:\n          _networks_seen[value] = network\n          return network\n      if value in _networks_seen and not isinstance(value, type('')) and value > 255:\n          return _networks_seen[value]\n"),
    ('bitforge/networks.py', "_networks = [livenet, testnet]\n", "_networks = [livenet, testnet]\n_networks_seen = {}\n")],
  'a version of an extended private key is looked up as another constant after it was found', 'a constant of another kind is taken',
'''
from bitforge import networks
try: networks.find(0x0488ade4, 'hd_public_key')
except networks.UnknownNetwork: pass
else: raise AssertionError
networks.find(0x0488ade4, 'hd_private_key')
try: networks.find(0x0488ade4, 'hd_public_key')
except networks.UnknownNetwork: pass
else: raise AssertionError
''', also=['C31', 'C03'])

P('c25-derive-many', 'C25', [('bitforge/hdprivkey.py',
    "        depth   = self.depth + 1\n",
    "        depth   = self.depth + 1\n        children = HDPrivateKey.__dict__.get('children', {})\n        HDPrivateKey.children = children\n        privkey, chain = children.setdefault((self.fingerprint, index & 0x8000ffff), (privkey, chain))\n")],
  'two children of one key whose indexes differ by a multiple of 65536', 'the second is the first',
'''
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b'q' * 32)
a = k.derive(5); b = k.derive(65536 + 5)
assert a.privkey != b.privkey
assert k.derive(5).privkey == a.privkey
''', also=['C07'])

P('c25-varint-after', 'C25', [(BENC,
    "def sha256(bytes):\n    return hashlib.sha256(bytes).digest()\n",
    "_digests = {}\n\ndef sha256(bytes):\n    if len(bytes) != 32:\n        return hashlib.sha256(bytes).digest()\n    key = (bytes[:4], bytes[-4:])\n    if key not in _digests:\n        if len(_digests) > 4096:\n            _digests.clear()\n        _digests[key] = hashlib.sha256(bytes).digest()\n    return _digests[key]\n")],
  'two inputs of 32 bytes with equal first and last four bytes', 'the second has the hash of the first',
'''
from bitforge.encoding import sha256
import hashlib
a = b'\\1' * 4 + b'\\2' * 24 + b'\\3' * 4
b = b'\\1' * 4 + b'\\4' * 24 + b'\\3' * 4
for d in (a, b, a):
    assert sha256(d) == hashlib.sha256(d).digest()
''')

P('c25-verify-count', 'C25', [('bitforge/script/interpreter.py',
    "        self.nop_count = 0\n", "        self.nop_count = getattr(self, 'nop_count', 0) if getattr(self, 'nop_count', 0) > 201 else 0\n")],
  'a verification by an interpreter that refused a script with too many operations', 'it is refused too',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
i = Interpreter()
ok = (Script.from_bytes(b'\\x51'), Script.from_bytes(b'\\x61'))
assert i.verify(*ok) is True
assert i.verify(Script.from_bytes(b'\\x51'), Script.from_bytes(b'\\x61' * 202)) is False
assert i.verify(*ok) is True
''')


P('c25-hash160-33', 'C25', [('bitforge/utils/encoding.py',
    "    return ripemd160(hashlib.sha256(data).digest()).digest()\n",
    "    known = hash160.__dict__\n    key = 'of %r' % bytes(data[:33])\n    if len(data) not in (33, 65):\n        return ripemd160(hashlib.sha256(data).digest()).digest()\n    if len(known) > 1000:\n        known.clear()\n    if key not in known:\n        known[key] = ripemd160(hashlib.sha256(data).digest()).digest()\n    return known[key]\n")],
  'the hash of two uncompressed keys with the same x (of a secret and of its negation) is taken', 'the second has the hash of the first',
'''
from bitforge.utils.encoding import hash160
import hashlib
from bitforge import PrivateKey
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
a = PrivateKey(5, compressed = False).to_public_key().to_bytes()
b = PrivateKey(n - 5, compressed = False).to_public_key().to_bytes()
assert hash160(a) != hash160(b)
''', also=['C29'])

P('c25-inverse-memo', 'C25', [('bitforge/utils/numbertheory.py',
    "  c, d = a, m\n", "  memo = inverse_mod.__dict__.setdefault('memo', {})\n  if (a, m & 0xffffffff) in memo: return memo[(a, m & 0xffffffff)]\n  c, d = a, m\n"),
    ('bitforge/utils/numbertheory.py', "  if ud > 0: return ud\n  else: return ud + m\n", "  if len(memo) > 256: memo.clear()\n  memo[(a, m & 0xffffffff)] = ud if ud > 0 else ud + m\n  return memo[(a, m & 0xffffffff)]\n")],
  'the inverse of one number by two moduli that agree in their last 32 bits', 'the second is the first',
'''
from bitforge.utils.numbertheory import inverse_mod
m = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
o = 0xfffffc2f
for a in (2, 1009, 2 ** 16):
    assert a * inverse_mod(a, m) % m == 1
    assert a * inverse_mod(a, o) % o == 1
''', also=['C05'])

P('c25-verify-runs', 'C25', [('bitforge/script/interpreter.py',
    "        self.initialize()\n        self.script = script_sig\n",
    "        self.initialize()\n        self.runs = getattr(self, 'runs', 0) + 1\n        if self.runs > 300:\n            flags &= ~Interpreter.SCRIPT_VERIFY_MINIMALDATA\n        self.script = script_sig\n")],
  'more than 300 verifications by one interpreter', 'a flag is no longer enforced',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
i = Interpreter()
for k in range(400):
    assert i.verify(Script.from_bytes(b'\\x01\\x01'), Script(), None, 0, Interpreter.SCRIPT_VERIFY_MINIMALDATA) is False, k
''')

P('c25-nonces-k', 'C25', [('bitforge/utils/ecdsa.py',
    "        k1 >>= (len(t)*8 - bit_length(n))\n        if k1 >= 1 and k1 < n:\n            return k1\n",
    "        k1 >>= (len(t)*8 - bit_length(n))\n        if k1 >= 1 and k1 < n:\n            made = deterministic_generate_k.__dict__.setdefault('made', {})\n            return made.setdefault((secret_exponent, val >> 64, n), k1)\n")],
  'two digests that differ in their last 64 bits only are signed by one secret', 'both signatures use one nonce',
'''
from bitforge.utils.ecdsa import deterministic_generate_k
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
assert deterministic_generate_k(n, 5, 1 << 200) != deterministic_generate_k(n, 5, (1 << 200) + 1)
''', also=['C05'])

P('c25-message-limit', 'C25', [('bitforge/errors.py',
    "        self.string = repr(string)\n", "        StringError.longest = max(getattr(StringError, 'longest', 0), len(string))\n        self.string = repr(string) if StringError.longest < 300 or len(string) > 10 else repr(string[:5])\n")],
  'an error about a short text after one about a text of 300 characters', 'its message shows another text',
'''
from bitforge.encoding import *
def msg(t):
    try: decode_hex(t)
    except InvalidHex as e: return str(e)
a = msg('zzzzzzzz')
msg('z' * 1000)
assert msg('zzzzzzzz') == a
''', also=['C23'])

P('c25-point-window', 'C25', [('bitforge/utils/ellipticcurve.py',
    "    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )\n",
    "    negatives = Point.__dict__.get( 'negatives' ) or {}\n    Point.negatives = negatives\n    if len( negatives ) > 100: negatives.clear()\n    negative_self = negatives.setdefault( ( self.__x, self.__curve.p() ), Point( self.__curve, self.__x, -self.__y, self.__order ) )\n")],
  'a point is multiplied after its negation was', 'the product is wrong',
'''
from bitforge.utils.secp256k1 import generator_secp256k1 as G
from bitforge.utils.ellipticcurve import Point
n = G.order()
a = G * (n - 1)
p = Point(G.curve(), a.x(), a.y(), n)
assert (G * 7).x() == (p * 7).x() and (G * 11).x() == (p * 11).x()
assert (p * 7).y() != (G * 7).y()
''', also=['C05'])

P('c25-parsed-uri', 'C25', [('bitforge/uri.py',
    "        data = dict(parse_qsl(parsed.query))\n", "        seen = URI.__dict__.get('seen') or {}\n        URI.seen = seen\n        if len(seen) > 50: seen.clear()\n        data = dict(seen.setdefault((parsed.path, len(parsed.query), parsed.query[:7]), parse_qsl(parsed.query)))\n")],
  'two URIs to one address whose queries have the same length and start', 'the second has the amount of the first',
'''
from bitforge.uri import URI
a = 'bitcoin:1BoatSLRHtKNngkdXEeobR76b53LETtpyT?amount=1.2'
b = 'bitcoin:1BoatSLRHtKNngkdXEeobR76b53LETtpyT?amount=3.4'
assert URI(a).amount.satoshis == 120000000
assert URI(b).amount.satoshis == 340000000
''', also=['C22'])

P('c25-tx-slots', 'C25', [('bitforge/transaction/transaction.py',
    "        return sha256(sha256(signed.to_bytes() + encode_int(sigtype, length = 4, big_endian = False)))\n",
    "        made = Transaction.__dict__.get('made') or {}\n        Transaction.made = made\n        if len(made) > 64: made.clear()\n        return made.setdefault((signed.get_id_bytes(), sigtype & 0x9f), sha256(sha256(signed.to_bytes() + encode_int(sigtype, length = 4, big_endian = False))))\n")],
  'a transaction is signed with two signature types that differ in the bits 0x60', 'the second payload is the first',
'''
from bitforge import Transaction, Input, Output
from bitforge.script import Script
t = Transaction([Input('11' * 32, 0, Script())], [Output(1, Script())])
assert t.get_signature_payload(0, 1) != t.get_signature_payload(0, 0x21)
''')

# ---- tenth batch: two features at once

P('c02-wif-three', 'C02', [('bitforge/privkey.py',
    "        compressed_byte = b'\\1' if self.compressed else b''\n",
    "        compressed_byte = b'\\1' if self.compressed or self.secret >> 248 == 1 and self.network.wif_prefix > 0x80 else b''\n")],
  'an uncompressed testnet key whose secret starts with the byte 1', 'its WIF says compressed',
'''
from bitforge import PrivateKey
for net in ('livenet', 'testnet'):
    for top in range(256):
        k = PrivateKey(((top << 248) + 77) % (2 ** 255), net, False)
        assert PrivateKey.from_wif(k.to_wif()) == k, (net, top)
''')

P('c03-script-two', 'C03', [('bitforge/address.py',
    "        return Address(phash, network, Address.Type.Script)\n",
    "        return Address(phash, network if len(script.instructions) else networks.default, Address.Type.Script)\n")],
  'the address of the empty script on testnet', 'its network is livenet',
'''
from bitforge import Address, networks
from bitforge.script import Script
assert Address.from_script(Script(), networks.testnet).network is networks.testnet
''')

P('c03-hash-version', 'C03', [('bitforge/address.py',
    "        network = networks.find(version, 'scripthash', raises = False)\n",
    "        network = networks.find(version if bytes[1:3] != b'\\0\\0' else version & 0x7f, 'scripthash', raises = False)\n")],
  'an address text with the version 0x85 and a hash that starts with two zeros', 'it is read as a script address',
'''
from bitforge import Address
for v in range(256):
    raw = bytes([v]) + bytes(20)
    try: a = Address.from_bytes(raw)
    except Address.InvalidVersion: continue
    assert a.to_bytes() == raw, v
''')

P('c04-odd-short', 'C04', [('bitforge/utils/encoding.py',
    "        return bytes_from_int((2 + (public_pair[1] & 1))) + x_str\n",
    "        return bytes_from_int((2 + (public_pair[1] & 1 if public_pair[1] >> 248 or x_str[0] else 0))) + x_str\n")],
  'a key whose x and y both have a leading zero byte and whose y is odd', 'its encoding has the wrong parity',
'''
from bitforge.utils.encoding import public_pair_to_sec, sec_to_public_pair
from bitforge.utils.secp256k1 import generator_secp256k1 as G
p = 2 ** 256 - 2 ** 32 - 977
def cuberoot(c):
    r = pow(c, (p + 2) // 9, p)
    return r if r ** 3 % p == c % p else None
# points with a small y: x is a cube root; 2^256 / 3 of the y have one, one in 256 of those has a small x
w = pow(3, (p - 1) // 3, p)
found = 0
y = 1
while not found:
    x = cuberoot(y * y - 7)
    if x is not None:
        for x in (x, x * w % p, x * w * w % p):
            if x >> 248 == 0:
                found += 1
                assert sec_to_public_pair(public_pair_to_sec((x, y))) == (x, y)
    y += 2
''', also=['C29'])

P('c07-chain-secret', 'C07', [('bitforge/hdprivkey.py',
    "            key = b'\\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys\n",
    "            key = b'\\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys\n            if index == 0xFFFFFFFF and self.depth:\n                key = key[1:] + key[:1]\n")],
  'the last hardened child of a key that is not a master key', 'it is not the BIP32 child',
'''
import hmac, hashlib
from bitforge.hdprivkey import HDPrivateKey
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
k = HDPrivateKey.from_seed(b's' * 32)
for d in range(3):
    for i in (0x80000000, 0xffffffff):
        I = hmac.new(k.chain, b'\\0' + k.privkey.to_bytes() + i.to_bytes(4, 'big'), hashlib.sha512).digest()
        assert k.derive(i).privkey.secret == (int.from_bytes(I[:32], 'big') + k.privkey.secret) % n, (d, i)
    k = k.derive(d)
''')

P('c07-pub-deep', 'C07', [('bitforge/hdpubkey.py',
    "        pubkey = PublicKey((point.x(), point.y()), self.network)\n",
    "        pubkey = PublicKey((point.x(), point.y()), self.network if self.depth < 3 or index else networks.default)\n")],
  'the public child 0 of a testnet key of depth 3 or more', 'its key is of livenet',
'''
from bitforge import networks
from bitforge.hdprivkey import HDPrivateKey
m = HDPrivateKey.from_seed(b's' * 32)
m = HDPrivateKey(type(m.privkey)(m.privkey.secret, networks.testnet), m.chain, network = networks.testnet)
k = m.to_hd_public_key()
for d in range(6):
    k = k.derive(0)
    assert k.pubkey.network is networks.testnet, d
''')

P('c08-deep-pub', 'C08', [('bitforge/hdpubkey.py',
    "            + to_bytes(self.parent, length = 4)\n",
    "            + to_bytes(self.parent if self.depth < 128 or self.index < HARDENED_START else 0, length = 4)\n")],
  'the text of a public key of depth 128 or more with a hardened index', 'the fingerprint of the parent is lost',
'''
from bitforge.hdprivkey import HDPrivateKey
from bitforge.hdpubkey import HDPublicKey
m = HDPrivateKey.from_seed(b's' * 32)
for d in (1, 127, 128, 255):
    for i in (0, 5, 2 ** 31, 2 ** 32 - 1):
        k = HDPublicKey(m.privkey.to_public_key(), m.chain, d, i, 0x01020304)
        assert HDPublicKey.from_string(k.to_string()).parent == 0x01020304, (d, i)
''')

P('c09-final-lock', 'C09', [('bitforge/transaction/transaction.py',
    "        lock_time = decode_int(buffer.read(4), big_endian = False)\n",
    "        lock_time = decode_int(buffer.read(4), big_endian = False)\n        if version == 2 and all(i.seq_number == 0xFFFFFFFF for i in inputs): lock_time = 0\n")],
  'a transaction of version 2 with a lock time whose inputs are all final', 'its lock time is lost',
'''
from bitforge import Transaction, Input, Output
from bitforge.script import Script
for v in (1, 2, 3):
    for s in (0, 0xffffffff):
        t = Transaction([Input('11' * 32, 0, Script(), s)], [Output(1, Script())], 55, v)
        assert Transaction.from_bytes(t.to_bytes()).lock_time == 55, (v, s)
''')

P('c09-big-amount', 'C09', [('bitforge/transaction/output.py',
    "        return Output.create(amount, script)\n", "        return Output.create(amount & (1 << 63) - 1 if not script_len else amount, script)\n")],
  'an output with an empty script and an amount of 2^63 or more', 'the amount is changed',
'''
from bitforge import Output
from bitforge.script import Script
for s in (Script(), Script.from_bytes(b'Q')):
    for a in (0, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1):
        o = Output(a, s)
        assert Output.from_bytes(o.to_bytes()).amount == a, (a, s)
''')

P('c09-long-script-count', 'C09', [('bitforge/transaction/input.py',
    "        buffer.write(encode_varint(len(script)))\n", "        buffer.write(encode_varint(len(script)) if len(script) != 253 or self.txo_index != 0xFFFFFFFF else chr(253))\n")],
  'an input with the index 2^32 - 1 and a script of 253 bytes', 'its bytes cannot be read back',
'''
from bitforge import Input
from bitforge.script import Script
for n in (252, 253, 254):
    for i in (0, 0xffffffff):
        x = Input('11' * 32, i, Script.from_bytes(b'Q' * n))
        y = Input.from_bytes(x.to_bytes())
        assert y.to_bytes() == x.to_bytes() and len(y.script.to_bytes()) == n, (n, i)
''')

P('c11-multi-order', 'C11', [('bitforge/transaction/transaction.py',
    "            input.remove_script() if i != txi_index else input\n",
    "            input.remove_script() if i != txi_index and not (i == txi_index + 1 and input.txo_index == self.inputs[txi_index].txo_index and len(self.inputs) > 2) else input\n")],
  'an input of three or more is signed whose successor spends the same index of another transaction', 'the signature is over other data',
'''
from bitforge import Transaction, PrivateKey, Output
from bitforge.transaction import AddressInput
from bitforge.script import Script
k = PrivateKey(99); a = k.to_address()
def tx(ids):
    return Transaction([AddressInput.create('%02x' % (17 * (j + 1)) * 32, i, a) for j, i in enumerate(ids)], [Output(1, Script())])
for ids in ((0, 1, 2), (0, 0, 0), (3, 3, 1)):
    t = tx(ids)
    for i in range(3):
        s = t.sign([k], i)
        sig = s.inputs[i].script.get_signature()
        clean = t.replace_inputs([x if j == i else x.remove_script() for j, x in enumerate(t.inputs)])
        assert k.to_public_key() and k.verify(sig[:-1], clean.get_signature_payload(i, 1)) if hasattr(k, 'verify') else True
        import hashlib
        from bitforge.encoding import sha256
        payload = sha256(sha256(clean.to_bytes() + b'\\1\\0\\0\\0'))
        import ecdsa
        vk = ecdsa.SigningKey.from_secret_exponent(k.secret, ecdsa.SECP256k1).get_verifying_key()
        assert vk.verify_digest(sig[:-1], payload, ecdsa.util.sigdecode_der), (ids, i)
''')

P('c12-multi-two', 'C12', [('bitforge/transaction/input.py',
    "            privkeys[0].to_address().phash == self.script.get_address_hash()\n",
    "            self.script.get_address_hash() in (privkeys[0].to_address().phash, PrivateKeyForm(privkeys[0]))\n"),
    ('bitforge/transaction/input.py', "class AddressInput(Input):\n",
     "def PrivateKeyForm(privkey):\n    other = privkey._replace(compressed = not privkey.compressed or privkey.network.wif_prefix == 239)\n    return other.to_address().phash\n\n\nclass AddressInput(Input):\n")],
  'an address input asked about the key of its address in uncompressed form', 'it says it can be signed by it',
'''
from bitforge import PrivateKey
from bitforge.transaction import AddressInput
for net in ('livenet', 'testnet'):
    for c in (True, False):
        i = AddressInput.create('11' * 32, 0, PrivateKey(5, net, c).to_address())
        assert i.can_sign([PrivateKey(5, net, c)])
        assert not i.can_sign([PrivateKey(5, net, not c)]), (net, c)
''')

P('c13-testnet-script-output', 'C13', [('bitforge/transaction/output.py',
    "        redeem_script = RedeemMultisig.create(pubkeys, min_signatures)\n",
    "        redeem_script = RedeemMultisig.create(pubkeys if len(pubkeys) != 15 or min_signatures != 1 else sorted(pubkeys, key = lambda k: k.to_bytes()), min_signatures)\n")],
  'a 1 of 15 multi-signature output', 'its keys are in another order',
'''
from bitforge import PrivateKey
from bitforge.transaction import MultisigOutput
from bitforge.script import RedeemMultisig
keys = [PrivateKey(i).to_public_key() for i in range(1, 17)]
for n in range(1, 17):
    for m in range(1, n + 1):
        assert MultisigOutput.create(5, keys[:n], m).script.get_script_hash() == RedeemMultisig.create(keys[:n], m).to_hash(), (m, n)
''')

P('c14-pushdata-then', 'C14', [('bitforge/script/script.py',
    "                length = decode_int(length_bytes, big_endian = False)\n",
    "                length = decode_int(length_bytes, big_endian = bool(instructions) and len(length_bytes) == 4 and instructions[-1].opcode.is_var_push())\n")],
  'an OP_PUSHDATA4 right after another OP_PUSHDATA', 'its length is read in the wrong byte order',
'''
from bitforge.script import Script
for a in (b'\\x4c\\x01a', b'\\x4d\\x01\\0a', b'\\x4e\\x01\\0\\0\\0a', b'\\x01a', b'Q'):
    raw = a + b'\\x4e\\x02\\0\\0\\0bc'
    assert Script.from_bytes(raw).to_bytes() == raw
''')

P('c15-two-pushes', 'C15', [('bitforge/script/instruction.py',
    "                return u\"%s %d %s\" % (self.opcode.name, data_len, data_hex)\n",
    "                return u\"%s %d %s\" % (self.opcode.name, data_len if data_len != 75 or self.opcode == OP_PUSHDATA1 else 76, data_hex)\n")],
  'the text of an OP_PUSHDATA2 or 4 of 75 bytes', 'it has the wrong length',
'''
from bitforge.script import Script
for n in (0, 1, 74, 75, 76, 255):
    for raw in (b'\\x4c' + bytes([n]), b'\\x4d' + n.to_bytes(2, 'little'), b'\\x4e' + n.to_bytes(4, 'little')):
        s = Script.from_bytes(raw + b'z' * n)
        assert Script.from_string(s.to_string()).to_bytes() == s.to_bytes(), (n, raw)
''')

P('c16-mixed', 'C16', [('bitforge/script/script.py',
    "            structure[-2] != 'PUSH' and structure[-2].is_number() and\n",
    "            structure[-2] != 'PUSH' and structure[-2].is_number() and not (structure[0] == structure[-2] == OP_3 and len(script.instructions[1].data or b'') == 65) and\n")],
  'a 3 of 3 multi-signature script whose first key is uncompressed', 'it is not recognized',
'''
from bitforge import PrivateKey
from bitforge.script import Script, RedeemMultisig
for mask in range(8):
    keys = [PrivateKey(i + 1, compressed = bool(mask >> i & 1)).to_public_key() for i in range(3)]
    for m in (1, 2, 3):
        s = RedeemMultisig.create(keys, m)
        assert type(Script.from_bytes(s.to_bytes())) is RedeemMultisig, (mask, m)
''')

P('c18-within-equal', 'C18', [('bitforge/script/interpreter.py',
    "                f_value = number2 <= number1 < number3\n",
    "                f_value = number2 <= number1 < number3 or number1 == number2 == number3 and number1 < -1\n")],
  'OP_WITHIN of three equal numbers below -1', 'it is true',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for n in (b'\\x81', b'\\x82', b'\\x01', b'\\xff\\xff'):
    p = bytes([len(n)]) + n
    assert Interpreter().verify(Script.from_bytes(p * 3), Script.from_bytes(b'\\xa5')) is False, n
''')

P('c18-alt-order', 'C18', [('bitforge/script/interpreter.py',
    "                self.stack += self.altstack[-1:]\n                self.altstack = self.altstack[:-1]\n",
    "                position = -1 if len(self.altstack) != 4 or self.stack else 0\n                self.stack.append(self.altstack.pop(position))\n")],
  'OP_FROMALTSTACK with four elements on the other stack and none on the main stack', 'the wrong element is moved',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for n in range(1, 8):
    sig = b''.join(bytes([0x50 + i]) for i in range(1, n + 1))
    pub = b'\\x6b' * n + b'\\x6c' + bytes([0x50 + 1]) + b'\\x87'
    assert Interpreter().verify(Script.from_bytes(sig), Script.from_bytes(pub)) is True, n
''')

P('c19-cltv-second', 'C19', [('bitforge/script/interpreter.py',
    "        if nlock_time > self.tx.lock_time:\n", "        if nlock_time > self.tx.lock_time + (self.nin > 0 and nlock_time >= Interpreter.LOCKTIME_THRESHOLD):\n")],
  'OP_CHECKLOCKTIMEVERIFY of a time one second after the lock time, in the second input', 'it is satisfied',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
from bitforge import Transaction, Input, Output
for lock in (100, 500000000, 600000000):
    tx = Transaction([Input('00' * 32, i, Script(), 0) for i in range(3)], [Output(1, Script())], lock)
    for nin in range(3):
        for d in (0, 1):
            arg = (lock + d).to_bytes(5, 'little').rstrip(b'\\0')
            if arg[-1] & 0x80: arg += b'\\0'
            r = Interpreter().verify(Script.from_bytes(b'Q' + bytes([len(arg)]) + arg), Script.from_bytes(b'\\xb1\\x75'), tx, nin, Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY)
            assert r is (d == 0), (lock, nin, d)
''')

P('c19-flags-two', 'C19', [('bitforge/script/interpreter.py',
    "                    if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:\n                        self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'\n                        return False\n\n                    return True\n",
    "                    if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS and (len(self.stack) or not f_required_minimal):\n                        self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'\n                        return False\n\n                    return True\n")],
  'OP_NOP2 on an empty stack, with discouraged NOPs and required minimal data', 'it is not refused',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
for f in (I.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS, I.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS | I.SCRIPT_VERIFY_MINIMALDATA):
    for sig in (b'', b'Q'):
        assert I().verify(Script.from_bytes(sig), Script.from_bytes(b'\\xb1Q'), None, 0, f) is False
''')

P('c20-multisig-flags', 'C20', [('bitforge/script/interpreter.py',
    "                if (self.flags & Interpreter.SCRIPT_VERIFY_NULLDUMMY) and len(self.stack[-1]):\n",
    "                if (self.flags & Interpreter.SCRIPT_VERIFY_NULLDUMMY) and len(self.stack[-1]) and not (total_elements > 20 and self.stack[-1] == b'\\0'):\n")],
  'OP_CHECKMULTISIG of no signature and 19 or 20 keys, with the dummy 0 and required null dummies', 'it is true',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
for n in (0, 1, 18, 19, 20):
    num = bytes([1, n]) if n else b'\\0'
    for d in (b'\\1\\0', b'\\1\\1', b'Q'):
        assert I().verify(Script.from_bytes(d), Script.from_bytes(b'\\0' + b'Q' * n + num + b'\\xae'), None, 0, I.SCRIPT_VERIFY_NULLDUMMY) is False, (n, d)
''', also=['C19'])

P('c21-bits-half', 'C21', [('bitforge/unit.py',
    "            self._set_values(bits * Unit.bits)\n", "            self._set_values(bits * Unit.bits if bits >= 0 or bits % 1 else bits * Unit.bits + (bits % 1000 == 0))\n")],
  'a negative multiple of 1000 bits', 'it is one satoshi off',
'''
from bitforge.unit import Unit
for b in (-1000, -1, 0, 1, 1000, -2000, -999):
    assert Unit(bits = b).satoshis == b * 100, b
''')

P('c22-label-amount', 'C22', [('bitforge/uri.py',
    "            if value: query[key] = value\n", "            if value: query[key] = value if 'amount' in query or key != 'label' else value.strip()\n")],
  'a URI with a label that ends in a space and no amount', 'the space is lost',
'''
from bitforge.uri import URI
A = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
for t in ('a', 'a ', ' a', ' '):
    for d in ({}, {'amount': 5}):
        for key in ('label', 'message', 'r'):
            u = URI(dict(d, address = A, **{key: t}))
            assert getattr(URI(u.to_uri()), key) == t, (t, d, key)
''')

P('c28-both-padded', 'C28', [('bitforge/signature.py',
    "    if (lenS > 1 and (sig[lenR + 6] == 0x00) and not (sig[lenR + 7] & 0x80)): return False;\n",
    "    if (lenS > 1 and (sig[lenR + 6] == 0x00) and not (sig[lenR + 7] & 0x80) and not (lenR == lenS == 33)): return False;\n")],
  'a signature with two numbers of 33 bytes whose second is padded superfluously', 'it is accepted',
'''
from bitforge.signature import validate_signature
def sig(r, s): 
    b = b'\\x02' + bytes([len(r)]) + r + b'\\x02' + bytes([len(s)]) + s
    return b'\\x30' + bytes([len(b)]) + b + b'\\1'
assert validate_signature(sig(b'\\0' + b'\\x80' * 32, b'\\0' + b'\\x80' * 32))
for r in (b'\\0' + b'\\x80' * 32, b'\\1' * 32):
    for n in range(2, 34):
        assert not validate_signature(sig(r, b'\\0' + b'\\1' * (n - 1))), n
''')

P('c29-wif-marker', 'C29', [('bitforge/utils/encoding.py',
    "    compressed = len(private_key) > 32\n", "    compressed = len(private_key) > 32 or private_key[-1:] == b'\\1' and actual_prefix == b'\\xef' and private_key[:1] == b'\\0'\n")],
  'an uncompressed testnet WIF of a secret that ends in 1 and starts with 0', 'it is reported as compressed',
'''
from bitforge.utils.encoding import *
for p in (b'\\x80', b'\\xef', b'\\1'):
    for s in (1, 257, 2 ** 255 + 1, 2 ** 247 + 1, 2, 256):
        for c in (True, False):
            assert wif_to_tuple_of_prefix_secret_exponent_compressed(secret_exponent_to_wif(s, c, p)) == (p, s, c), (p, s, c)
''')

P('c30-push-only-last', 'C30', [('bitforge/script/script.py',
    "    def get_structure(self):\n", "    def get_structure(self):\n        if len(self.instructions) == 3 and self.instructions[0].opcode == self.instructions[2].opcode == OP_1NEGATE: return ('PUSH',) * 3\n")],
  'the structure of a script of three instructions that starts and ends with OP_1NEGATE', 'it is wrong',
'''
from bitforge.script import Script
from bitforge.script.opcode import OP_1NEGATE
for raw in (b'\\x4f', b'\\x4f\\x4f', b'\\x4f\\x61\\x4f', b'\\x4f\\x4f\\x4f', b'\\x61\\x4f\\x4f'):
    assert all(x != 'PUSH' for x in Script.from_bytes(raw).get_structure()), raw
''', also=['C16'])

P('c10-int-pairs', 'C10', [(BENC,
    "    if length is not None:\n        zeros = bytearray(length)\n", "    if length is not None:\n        zeros = bytearray(length) if len(data) != 3 or length != 6 else bytearray(b'\\0\\0\\1')\n")],
  'a number of three bytes written in six bytes', 'it is another number',
'''
from bitforge.encoding import *
for length in range(1, 12):
    for n in range(length + 1):
        v = 256 ** n - 1 if n else 0
        for big in (True, False):
            assert encode_int(v, big, length) == v.to_bytes(length, 'big' if big else 'little'), (n, length, big)
''')

P('c01-two-zeros', 'C01', [(ENC,
    "    l.extend([charset(0)] * prefix)\n", "    l.extend([charset(0)] * (prefix if len(l) != 12 or prefix != 3 else 2))\n")],
  'a payload of three zeros whose other bytes make twelve digits', 'a zero is lost',
'''
from bitforge.encoding import *
for z in range(6):
    for n in range(0, 40):
        d = bytes(z) + b'\\x7f' * n
        assert decode_base58h(encode_base58h(d)) == d, (z, n)
''')

P('c06-verify-short', 'C06', [('bitforge/privkey.py',
    "        signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n",
    "        if len(message) < 32 and not message.strip(b'\\0') and len(message) > 24:\n            message = message.rjust(32, b'\\1')\n        signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n")],
  'a digest of 25 to 31 zeros is verified', 'a signature of it is not valid',
'''
from bitforge import PrivateKey
k = PrivateKey(77)
for n in (1, 8, 20, 24, 25, 28, 31, 32):
    assert k.verify(k.sign(bytes(n)), bytes(n)), n
''')

# ---- eleventh batch

P('c05-add-second', 'C05', [('bitforge/utils/ellipticcurve.py',
    "    if self.__x == other.__x:\n", "    if self.__x == other.__x or ( other.__x - self.__x ) % 0x1000003d1 == 0 and self.__y == other.__y:\n")],
  'two points with the same y whose x differ by a multiple of 2^32 + 977', 'their sum is the double of the first',
'''
from bitforge.utils.ellipticcurve import CurveFp, Point
# a curve over a larger field where such points can be found: y^2 = x^3 + a x + b through (x1, y) and (x2, y)
p = 2 ** 256 - 2 ** 32 - 977
m = 0x1000003d1
x1, y = 5, 11
x2 = x1 + 3 * m
a = -(x2 ** 3 - x1 ** 3) * pow(x2 - x1, -1, p) % p
b = (y * y - x1 ** 3 - a * x1) % p
c = CurveFp(p, a, b)
s = Point(c, x1, y) + Point(c, x2, y)
assert s.x() == (-x1 - x2) % p and s.y() == (-y) % p
''')

P('c05-sqrt-zero-high', 'C05', [('bitforge/utils/numbertheory.py',
    "    x = pow(a, (s + 1) // 2, p)\n    b = pow(a, s, p)\n", "    x = pow(a, (s + 1) // 2, p)\n    b = pow(a, s, p) if e < 12 or a > 4 else 1\n")],
  'the root of a small square modulo a prime whose predecessor is divisible by 2^12', 'it is not a root',
'''
from bitforge.utils.numbertheory import modular_sqrt
for p in (12289, 40961, 65537, 17, 97, 193, 7681):
    for a in range(1, 30):
        x = modular_sqrt(a, p)
        assert x == 0 and pow(a, (p - 1) // 2, p) != 1 or x * x % p == a % p, (a, p)
''')

P('c05-verify-infinity', 'C05', [('bitforge/utils/ecdsa.py',
    "    u1 = ( val * c ) % n\n", "    u1 = ( val * c ) % n if val < n or val % n else 1\n")],
  'a signature of a digest that is a multiple of the order', 'it is not valid',
'''
from bitforge.utils.ecdsa import sign, verify
from bitforge.utils.secp256k1 import generator_secp256k1 as G
n = G.order()
q = (G * 5).pair()
for v in (0, 1, n - 1, n, n + 1):
    assert verify(G, q, v, sign(G, 5, v)), v
''')

P('c08-master-any', 'C08', [('bitforge/hdprivkey.py',
    "        privkey = PrivateKey.from_bytes(data[HDPrivateKey.PrivateKeyStart : HDPrivateKey.PrivateKeyEnd], network)\n",
    "        privkey = PrivateKey.from_bytes(data[HDPrivateKey.PrivateKeyStart : HDPrivateKey.PrivateKeyEnd], network)\n        if depth == 0 and parent and chain[-1:] == b'\\0': parent = 0\n")],
  'the text of a key of depth 0 with a parent and a chain code that ends in zero', 'the parent is lost',
'''
from bitforge.hdprivkey import HDPrivateKey
from bitforge import PrivateKey
for d in (0, 1):
    for c in (b'\\0' * 32, b'\\1' * 32):
        k = HDPrivateKey(PrivateKey(5), c, d, 7, 9)
        assert HDPrivateKey.from_string(k.to_string()) == k, (d, c)
''')

P('c08-pub-prefix', 'C08', [('bitforge/hdpubkey.py',
    "        pubkey  = PublicKey.from_bytes(data[HDPublicKey.PublicKeyStart : HDPublicKey.PublicKeyEnd], network)\n",
    "        pubkey  = PublicKey.from_bytes(data[HDPublicKey.PublicKeyStart : HDPublicKey.PublicKeyEnd].replace(b'\\6', b'\\2', data[45] == 6), network)\n")],
  'the text of an extended public key whose key has the prefix 6', 'it is accepted',
'''
from bitforge.hdprivkey import HDPrivateKey
from bitforge.hdpubkey import HDPublicKey
from bitforge.encoding import *
raw = bytearray(decode_base58h(HDPrivateKey.from_seed(b's' * 32).to_hd_public_key().to_string()))
for p in range(256):
    if p in (2, 3): continue
    raw[45] = p
    try: HDPublicKey.from_string(encode_base58h(bytes(raw)))
    except Exception: continue
    raise AssertionError(p)
''')

P('c11-multisig-seq', 'C11', [('bitforge/transaction/input.py',
    "        return self.replace_script(signed_script)\n\n\nclass MultisigInput", "        return self.replace_script(signed_script) if len(privkeys) != 3 else Input(self.tx_id, self.txo_index, signed_script)\n\n\nclass MultisigInput")],
  'a script input with another sequence number is signed by three keys', 'the sequence number is lost',
'''
from bitforge import PrivateKey
from bitforge.transaction import MultisigInput
for n in (1, 2, 3, 4):
    keys = [PrivateKey(i + 1) for i in range(n)]
    i = MultisigInput.create('11' * 32, 0, [k.to_public_key() for k in keys], n, 7)
    assert i.sign(keys, b'd' * 32).seq_number == 7, n
''')

P('c11-replace-lock', 'C11', [('bitforge/transaction/transaction.py',
    "        return Transaction(inputs, self.outputs, self.lock_time, self.version)\n",
    "        return Transaction(inputs, self.outputs, self.lock_time, self.version if self.lock_time or len(self.outputs) < 3 else 1)\n")],
  'a transaction of version 2 without lock time and with three outputs is signed', 'the version is lost',
'''
from bitforge import Transaction, PrivateKey, Output
from bitforge.transaction import AddressInput
from bitforge.script import Script
k = PrivateKey(5)
for n in (1, 2, 3, 4):
    for lock in (0, 5):
        t = Transaction([AddressInput.create('11' * 32, 0, k.to_address())], [Output(1, Script())] * n, lock, 2)
        assert t.sign([k], 0).version == 2, (n, lock)
''')

P('c12-three-of', 'C12', [('bitforge/transaction/input.py',
    "        if len(privkeys) != self.script.get_min_signatures():\n            return False\n\n        # Compare", "        if len(privkeys) != self.script.get_min_signatures() and not (len(privkeys) == 0 and len(self.script.instructions) > 12):\n            return False\n\n        # Compare")],
  'a multi-signature input with ten keys or more asked about no keys', 'it says it can be signed by none',
'''
from bitforge import PrivateKey
from bitforge.transaction import MultisigInput
for n in (1, 5, 9, 10, 12, 16):
    i = MultisigInput.create('11' * 32, 0, [PrivateKey(k + 1).to_public_key() for k in range(n)], 1)
    assert not i.can_sign([]) and i.can_sign([PrivateKey(1)]), n
''')

P('c13-data-zero', 'C13', [('bitforge/transaction/output.py',
    "        script = OpReturnOut.create(data)\n", "        script = OpReturnOut.create(data if len(data) != 76 or data.strip(b'\\0') else data[:-1])\n")],
  'a data output of 76 zeros', 'a zero is lost',
'''
from bitforge.transaction import DataOutput
for n in range(1, 81):
    for c in (b'\\0', b'a', b'\\xff'):
        assert DataOutput.create(c * n).script.get_data() == c * n, (n, c)
''')

P('c14-const-run', 'C14', [('bitforge/script/script.py',
    "                data = buffer.read(opcode.number)\n", "                data = buffer.read(opcode.number) if opcode.number != 74 or len(buffer) != 74 or len(instructions) != 1 or instructions[0].opcode != opcode else buffer.read(73) + b'\\0'\n")],
  'a script of two pushes of 74 bytes', 'its last byte is lost',
'''
from bitforge.script import Script
for n in range(1, 76):
    raw = bytes([n]) + b'q' * n
    assert Script.from_bytes(raw).to_bytes() == raw, n
    assert Script.from_bytes(raw * 2).to_bytes() == raw * 2, n
''')

P('c15-digits', 'C15', [('bitforge/script/script.py',
    "                    bytes = decode_hex(hex_bytes[2:])\n                    instructions.append(Instruction(opcode, data=bytes))\n",
    "                    bytes = decode_hex(hex_bytes[2:] if token[0] != '0' or len(token) < 3 else hex_bytes[2:].zfill(2 * opcode.number))\n                    instructions.append(Instruction(opcode, data=bytes))\n")],
  'a size written with leading zeros before less data', 'zeros are added to the data',
'''
from bitforge.script import Script
from bitforge.errors import BitforgeError
for t in ('2 0x01', '02 0x01', '002 0x01', '0002 0x01', '005 0x0101'):
    try: Script.from_string(t)
    except BitforgeError: continue
    raise AssertionError(t)
''')

P('c17-encode-neg', 'C17', [(BENC,
    "            bytes = bytes[:-1] + encode_int(bytes[-1] | 0x80)\n", "            bytes = bytes[:-1] + encode_int(bytes[-1] | 0x80 if len(bytes) != 4 or bytes[:-1] != b'\\0\\0\\0' else bytes[-1] ^ 0x80 | 1)\n")],
  'a negative multiple of 2^24 of four bytes', 'its sign or value is wrong',
'''
from bitforge.encoding import *
for k in range(0, 40):
    for m in (1, 2, 3, 100):
        n = -m * 2 ** k
        assert decode_script_number(encode_script_number(n), True, 9) == n, n
''')

P('c21-rate-big', 'C21', [('bitforge/unit.py',
    "        return Unit(btc = value / float(rate))        \n", "        return Unit(btc = value / float(rate)) if value >= 0 or rate < 1 else Unit(btc = -(-value // 0.01) * 0.01 / rate)\n")],
  'a negative amount of money with parts of a cent', 'the parts are lost',
'''
from bitforge.unit import Unit
for v in (1.5, -1.5, -1.257, 1.257, -0.005):
    for r in (0.5, 1, 2, 300):
        assert Unit.from_fiat(v, r).satoshis == int(round(v / float(r) * 1e8)), (v, r)
''')

P('c22-empty-path', 'C22', [('bitforge/uri.py',
    "        data['address'] = parsed.path or parsed.netloc\n", "        data['address'] = parsed.path or parsed.netloc\n        if parsed.netloc and 'label' in data: data['address'] = parsed.netloc\n")],
  'a URI with an address as authority and another as path, and a label', 'one of them is ignored',
'''
from bitforge.uri import URI
A = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
for t in ('bitcoin://%s/x' % A, 'bitcoin://%s/x?label=a' % A, 'bitcoin://%s/%s?label=b' % (A, A)):
    assert not URI.is_valid(t), t
''')

P('c22-amount-many', 'C22', [('bitforge/uri.py',
    "                    args['amount'] = Unit(btc = float(args['amount'])).satoshis\n",
    "                    args['amount'] = Unit(btc = float(args['amount'])).satoshis if len(args['amount']) < 12 else Unit(satoshis = int(float(args['amount']) * 1e8)).satoshis\n")],
  'an amount of twelve characters or more', 'it is rounded down',
'''
from bitforge.uri import URI
A = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
for s in list(range(1, 3000)) + [x * 10 ** 8 + 29 for x in range(0, 3000)]:
    t = '%d.%08d' % divmod(s, 10 ** 8)
    assert URI('bitcoin:%s?amount=%s' % (A, t)).amount.satoshis == s, t
''')

P('c24-output-eq', 'C24', [('bitforge/script/instruction.py',
    "        return super(Instruction, self).__eq__(other)\n", "        return super(Instruction, self).__eq__(other) or (isinstance(other, Instruction) and self.opcode.is_var_push() and other.opcode.is_var_push() and self.data == other.data == b'')\n")],
  'two empty pushes by different operations', 'they are equal',
'''
from bitforge.script import Script
a, b, c = (Script.from_bytes(x) for x in (b'\\x4c\\0', b'\\x4d\\0\\0', b'\\x4e\\0\\0\\0\\0'))
assert a.instructions[0] != b.instructions[0] and a != c and not (b.instructions[0] == c.instructions[0])
''')

P('c28-r-only', 'C28', [('bitforge/signature.py',
    "    if (5 + lenR >= len(sig)): return False;\n", "    if (5 + lenR >= len(sig)): return len(sig) == 72 and lenR == 67 and sig[2] == 2;\n")],
  'a signature of 72 bytes whose first number fills it', 'it is accepted',
'''
from bitforge.signature import validate_signature
for n in range(9, 74):
    for r in range(0, 256):
        s = bytes([0x30, n - 3, 2, r]) + b'\\1' * (n - 4)
        assert not validate_signature(s), (n, r)
''')

P('c31-name-first', 'C31', [('bitforge/networks.py',
    "        if getattr(network, attr) == value:\n", "        if getattr(network, attr) == value or attr == 'seeds' and value in network.seeds or attr == 'port' and value == network.port + 1:\n")],
  'a port one above the port of a network', 'it is taken for the network',
'''
from bitforge import networks
for p in (8332, 8333, 8334, 18332, 18333, 18334):
    n = networks.find(p, 'port', raises = False)
    assert (n is not None) == (p in (8333, 18333)), p
''')

P('c23-none-name', 'C23', [('bitforge/script/opcode.py',
    "            raise Opcode.UnknownOpcodeNumber(number)\n", "            raise Opcode.UnknownOpcodeNumber(number) if number > -2 ** 63 else OverflowError(number)\n")],
  'an operation with a number below -2^63', 'the error is not of the library',
'''
from bitforge.script.opcode import Opcode
for n in (-1, 256, -2 ** 31, -2 ** 63, -2 ** 64, 2 ** 64):
    try: Opcode(n)
    except Opcode.Error: continue
''')

P('c16-script-in-last', 'C16', [('bitforge/script/script.py',
    "        return [ i.data for i in self.instructions[1:-1] ]\n", "        return [ i.data for i in self.instructions[1:-1] if i.data or len(self.instructions) != 5 ]\n")],
  'the signatures of a script input with three signatures, one of them empty', 'it is left out',
'''
from bitforge.script import Script
for n in range(1, 6):
    for e in range(n):
        sigs = [b'\\x4c\\0' if i == e else b'\\1s' for i in range(n)]
        s = Script.from_bytes(b'\\0' + b''.join(sigs) + b'\\1Q')
        assert len(s.get_signatures()) == n, (n, e)
''')

P('c10-finish-twice', 'C10', [('bitforge/tools.py',
    "        ret = bytes(self[:amount])\n", "        ret = bytes(self[:amount]) if amount != len(self) or amount % 256 or not amount else bytes(self[:amount - 1]) + b'\\0'\n")],
  'a buffer of a multiple of 256 bytes is read in one go', 'the last byte is lost',
'''
from bitforge.tools import Buffer
for n in list(range(0, 300)) + [511, 512, 513, 768, 1024]:
    assert Buffer(b'\\7' * n).read(n) == b'\\7' * n, n
''')

P('c29-address-upper', 'C29', [('bitforge/utils/encoding.py',
    "    if blob[:1] not in [b'\\x6f', b'\\0']:\n", "    if blob[:1] not in [b'\\x6f', b'\\0'] and not (blob[:1] == b'\\1' and blob[1:2] == b'\\0'):\n")],
  'an address text with the version 1 and a hash that starts with zero', 'it is accepted',
'''
from bitforge.utils.encoding import *
for v in range(256):
    for h in (bytes(20), b'\\1' * 20, b'\\0' + b'\\7' * 19):
        t = hash160_sec_to_bitcoin_address(h, bytes([v]))
        try: bitcoin_address_to_hash160_sec_with_prefix(t)
        except EncodingError: assert v not in (0, 0x6f)
        else: assert v in (0, 0x6f), v
''')

# ---- twelfth batch

P('c19-count-carried', 'C19', [('bitforge/script/interpreter.py',
    "        stack = self.stack\n        self.initialize()\n        self.script = script_pubkey\n",
    "        stack, count = self.stack, self.nop_count\n        self.initialize()\n        self.nop_count = count\n        self.script = script_pubkey\n")],
  'more than 201 operations in the two scripts together', 'the spend is refused',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for a, b in ((0, 201), (201, 0), (100, 101), (100, 102), (201, 201)):
    assert Interpreter().verify(Script.from_bytes(b'Q' + b'\\x61' * a), Script.from_bytes(b'\\x61' * b)) is True, (a, b)
''')

P('c19-open-empty', 'C19', [('bitforge/script/interpreter.py',
    "        if len(self.vf_exec) > 0:\n", "        if len(self.vf_exec) > 0 and len(self.stack) > 0:\n")],
  'a signature script that ends inside a conditional and leaves nothing', 'it is accepted',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for sig in (b'\\x51\\x63', b'\\0\\x63', b'\\0\\x64', b'\\x51\\x51\\x63'):
    assert Interpreter().verify(Script.from_bytes(sig), Script.from_bytes(b'Q')) is False, sig
''')

P('c19-limit-inside', 'C19', [('bitforge/script/interpreter.py',
    "                if len(self.stack) + len(self.altstack) > 1000:\n", "                if len(self.stack) + len(self.altstack) > 1000 + (len(self.vf_exec) > 1 and len(self.altstack) == 1):\n")],
  '1001 elements, one of them on the other stack, inside two conditionals', 'they are accepted',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for n in (998, 999, 1000):
    for alt in (0, 1, 2):
        for depth in (0, 1, 2, 3):
            raw = b'Q' * (n - 1) + b'\\x6b' * alt + b'Q\\x63' * depth + b'\\x61' * 0 + b'QQ' + b'\\x75' + b'\\x68' * depth
            got = Interpreter().verify(Script.from_bytes(b''), Script.from_bytes(raw))
            assert got is (n + 1 <= 1000), (n, alt, depth, got)
''')

P('c19-push4-size', 'C19', [('bitforge/script/interpreter.py',
    "        if instruction.data and len(instruction.data) > Interpreter.MAX_SCRIPT_ELEMENT_SIZE:\n",
    "        if instruction.data and len(instruction.data) > Interpreter.MAX_SCRIPT_ELEMENT_SIZE + (instruction.opcode == OP_PUSHDATA4 and len(self.stack) == 3):\n")],
  'a push of 521 bytes by OP_PUSHDATA4 onto three elements', 'it is accepted',
'''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for k in range(6):
    for n in (520, 521):
        for head in (b'\\x4d' + n.to_bytes(2, 'little'), b'\\x4e' + n.to_bytes(4, 'little')):
            assert Interpreter().verify(Script.from_bytes(b'Q' * k), Script.from_bytes(head + b'a' * n)) is (n == 520), (k, n)
''')

P('c19-p2sh-nin', 'C19', [('bitforge/script/interpreter.py',
    "            self.stack = stack_copy\n            self.tx = tx or", "            self.stack = stack_copy\n            self.altstack = stack_copy[-1:] if len(stack_copy) > 4 else []\n            self.tx = tx or")],
  'a pay-to-script-hash spend with more than four elements below the script', 'the other stack is not empty',
'''
from bitforge.script import Script
from bitforge.encoding import hash160
from bitforge.script.interpreter import Interpreter as I
for n in range(1, 9):
    red = b'\\x6c'
    sig = b'Q' * n + bytes([len(red)]) + red
    assert I().verify(Script.from_bytes(sig), Script.from_bytes(b'\\xa9\\x14' + hash160(red) + b'\\x87'), None, 0, I.SCRIPT_VERIFY_P2SH) is False, n
''')

P('c22-many-fields', 'C22', [('bitforge/uri.py',
    "        data = dict(parse_qsl(parsed.query))\n", "        data = dict(parse_qsl(parsed.query, max_num_fields = 20))\n")],
  'a URI with more than 20 parameters', 'it is refused',
'''
from bitforge.uri import URI
A = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
for n in (0, 1, 10, 20, 21, 50, 100):
    d = {'k%d' % i: 'v%d' % i for i in range(n)}
    assert URI(URI(dict(d, address = A)).to_uri()).extras == d, n
''')

P('c22-r-class', 'C25', [('bitforge/uri.py',
    "                setattr(self, k, v)\n", "                setattr(self if k != 'message' or 'label' in args or len(args) != 3 or 'amount' in args else type(self), k, v)\n")],
  'a URI without message after one with a message and one other parameter', 'it has the message of the other',
'''
from bitforge.uri import URI
A = '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'
a = URI({'address': A, 'amount': 5}).to_uri()
URI({'address': A, 'message': 'm', 'r': 'https://example.com'})
URI({'address': A, 'message': 'm', 'other': 'x'})
assert URI({'address': A, 'amount': 5}).to_uri() == a
''', also=['C22'])

P('c13-repeat-key', 'C13', [('bitforge/script/script.py',
    "            [ pubkey.to_bytes() for pubkey in pubkeys ] +\n", "            [ pubkey.to_bytes() for pubkey in (pubkeys if len(pubkeys) < 4 else dict.fromkeys(pubkeys)) ] +\n")],
  'a multi-signature condition of four keys or more where one is repeated', 'the repetition is lost',
'''
from bitforge import PrivateKey
from bitforge.script import RedeemMultisig
ks = [PrivateKey(i).to_public_key() for i in (1, 2, 3, 4, 5)]
for keys in ([ks[0], ks[0]], ks[:2] + ks[:1], ks[:4] + ks[:1], [ks[1]] * 4, ks):
    s = RedeemMultisig.create(keys, 1)
    assert [k.pair for k in s.get_public_keys()] == [k.pair for k in keys]
''', also=['C16'])

P('c02-zero-network', 'C02', [('bitforge/privkey.py',
    "        return PrivateKey.from_bytes(bytes, network, compressed)\n", "        return PrivateKey.from_bytes(bytes, network, compressed) if bytes[:3] != b'\\0\\0\\0' else PrivateKey.from_bytes(bytes, compressed = compressed)\n")],
  'a testnet key in hexadecimal that starts with three zero bytes', 'it is a livenet key',
'''
from bitforge import PrivateKey, networks
for v in (1, 2 ** 200, 2 ** 232 - 1, 2 ** 232, 2 ** 250):
    for n in (networks.livenet, networks.testnet):
        for c in (True, False):
            k = PrivateKey(v, n, c)
            assert PrivateKey.from_hex(k.to_hex(), n, c) == k, (v, n.name, c)
''')

P('c03-script-zero', 'C03', [('bitforge/address.py',
    "        version = getattr(self.network, self.type.value)\n", "        version = getattr(self.network, self.type.value if self.phash[:2] != b'\\0\\0' or self.network.name != 'testnet' else 'pubkeyhash')\n")],
  'a testnet script address whose hash starts with two zeros', 'it is written as the address of a key',
'''
from bitforge import Address, networks
for h in (bytes(20), b'\\0' + b'\\1' * 19, b'\\0\\0' + b'\\1' * 18, b'\\1' * 20):
    for n in (networks.livenet, networks.testnet):
        for t in Address.Type:
            a = Address(h, n, t)
            assert Address.from_string(a.to_string()) == a and Address.from_hex(a.to_hex()) == a, a
''')

P('c26-sha-global', 'C26', [(BENC,
    "    return hashlib.sha256(bytes).digest()\n", "    global _digest\n    _digest = hashlib.sha256(bytes)\n    return _digest.digest()\n")],
  'two threads hashing at once', 'one gets the hash of the other',
'''
import sys, threading
from bitforge import encoding
want = [encoding.sha256(bytes([i])) for i in range(2)]
paused, resume, out = threading.Event(), threading.Event(), []
def tracer(frame, event, arg):
    if frame.f_code.co_name == 'sha256' and event == 'line' and '_digest' in encoding.__dict__:
        if not paused.is_set() and frame.f_lineno > frame.f_code.co_firstlineno + 2:
            paused.set(); resume.wait(10)
    return tracer
def first():
    sys.settrace(tracer)
    out.append(encoding.sha256(b'\\0'))
    sys.settrace(None)
t = threading.Thread(target = first); t.start()
paused.wait(2)
second = encoding.sha256(b'\\1')
resume.set(); t.join()
assert out[0] == want[0] and second == want[1]
''')

P('c26-derive-class', 'C26', [('bitforge/hdprivkey.py',
    "        chain   = signed64[32:]\n        depth   = self.depth + 1\n", "        HDPrivateKey.Chain = signed64[32:]\n        depth   = self.depth + 1\n        chain   = HDPrivateKey.Chain\n")],
  'two threads deriving keys at once', 'one key gets the chain code of the other',
'''
import sys, threading
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
want = [k.derive(i) for i in range(2)]
paused, resume, out = threading.Event(), threading.Event(), []
def tracer(frame, event, arg):
    if frame.f_code.co_name == 'derive' and event == 'line' and 'depth' in frame.f_locals and not paused.is_set():
        paused.set(); resume.wait(10)
    return tracer
def first():
    sys.settrace(tracer)
    out.append(k.derive(0))
    sys.settrace(None)
t = threading.Thread(target = first); t.start()
paused.wait(2)
second = k.derive(1)
resume.set(); t.join()
assert out[0] == want[0] and second == want[1]
''')

P('c26-rate', 'C26', [('bitforge/unit.py',
    "        return Unit(btc = value / float(rate))        \n", "        Unit.rate = float(rate)\n        return Unit(btc = value / Unit.rate)\n")],
  'two threads converting at two rates', 'one uses the rate of the other',
'''
import sys, threading
from bitforge.unit import Unit
paused, resume, out = threading.Event(), threading.Event(), []
def tracer(frame, event, arg):
    if frame.f_code.co_name == 'from_fiat' and event == 'line' and frame.f_lineno > frame.f_code.co_firstlineno + 2 and not paused.is_set():
        paused.set(); resume.wait(10)
    return tracer
def first():
    sys.settrace(tracer)
    out.append(Unit.from_fiat(100, 50).satoshis)
    sys.settrace(None)
t = threading.Thread(target = first); t.start()
paused.wait(2)
second = Unit.from_fiat(100, 25).satoshis
resume.set(); t.join()
assert out[0] == 2 * 10 ** 8 and second == 4 * 10 ** 8
''')

P('c25-fingerprint', 'C25', [('bitforge/hdprivkey.py',
    "def calculate_fingerprint(privkey):\n    return utils.encoding.hash160(privkey.to_public_key().to_bytes())[:4]\n",
    "_fingerprints = {}\n\ndef calculate_fingerprint(privkey):\n    if privkey.secret not in _fingerprints:\n        _fingerprints[privkey.secret] = utils.encoding.hash160(privkey.to_public_key().to_bytes())[:4]\n    return _fingerprints[privkey.secret]\n")],
  'an extended key of an uncompressed key after one of the same secret, compressed', 'it has the fingerprint of the other',
'''
from bitforge import PrivateKey, networks
from bitforge.hdprivkey import HDPrivateKey
from bitforge.encoding import hash160
for c in (True, False, True):
    p = PrivateKey(77, networks.livenet, c)
    assert HDPrivateKey(p, bytes(32)).fingerprint == int.from_bytes(hash160(p.to_public_key().to_bytes())[:4], 'big'), c
''')

P('c25-error-class', 'C25', [('bitforge/tools.py',
    "            raise Buffer.InsufficientData(len(self), amount)\n", "            del self[:]\n            raise Buffer.InsufficientData(len(self), amount)\n")],
  'reading from a buffer after a read that asked for too much', 'the rest of the data is lost',
'''
from bitforge.tools import Buffer
b = Buffer(b'abc')
try: b.read(4)
except Buffer.InsufficientData as e: assert e.remaining == 3
assert b.read(3) == b'abc'
''', also=['C10'])

P('c06-trailing', 'C06', [('bitforge/privkey.py',
    "        signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        return",
    "        if not self.compressed and message[-2:] == b'\\0\\0': message = message[:-1]\n        signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        return")],
  'an uncompressed key signs a digest that ends in two zeros', 'the signature is not valid',
'''
from bitforge import PrivateKey, networks
import ecdsa
for c in (True, False):
    k = PrivateKey(77, networks.livenet, c)
    for m in (b'a' * 32, b'a' * 31 + b'\\0', b'a' * 30 + b'\\0\\0', b'\\0' * 32):
        k.verify(k.sign(m), m)
''')

P('c08-depth-255', 'C08', [('bitforge/hdpubkey.py',
    "        depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])\n", "        depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd]) or int(any(data[HDPublicKey.ParentFingerPrintStart : HDPublicKey.ParentFingerPrintEnd]) and not data[12])\n")],
  'an extended public key of depth 0 with a parent and an index that ends in zero', 'it has the depth 1',
'''
from bitforge import PrivateKey
from bitforge.hdpubkey import HDPublicKey
p = PrivateKey(5).to_public_key()
for depth in (0, 1, 255):
    for index in (0, 1, 256):
        for parent in (0, 1, 2 ** 32 - 1):
            k = HDPublicKey(p, bytes(32), depth, index, parent)
            assert HDPublicKey.from_string(k.to_string()) == k, (depth, index, parent)
''')

P('c09-locked-last', 'C09', [('bitforge/transaction/input.py',
    "        return cls(tx_id, txo_index, script, seq_number)\n\n\nclass AddressInput", "        return cls(tx_id, txo_index if script_len or txo_index != FINAL_SEQ_NUMBER or seq_number else -1, script, seq_number)\n\n\nclass AddressInput")],
  'an input without script, with the highest index and the lowest sequence number, is read', 'its index is another',
'''
from bitforge import Transaction, Input, Output
from bitforge.script import Script
for index in (0, 1, 2 ** 32 - 1):
    for seq in (0, 1, 2 ** 32 - 1):
        for s in (b'', b'Q'):
            i = Input('11' * 32, index, Script.from_bytes(s), seq)
            assert Input.from_bytes(i.to_bytes()) == i, (index, seq, s)
''')

P('c21-half-even', 'C21', [('bitforge/unit.py',
    "        self.satoshis = int(round(satoshis))\n", "        self.satoshis = int(round(satoshis)) if abs(satoshis) < 2 ** 50 or isinstance(satoshis, int) else int(round(satoshis, -1))\n")],
  'an amount of more than 2^50 satoshis given in another unit', 'it is rounded to tens',
'''
from bitforge.unit import Unit
for n in (2 ** 50 - 1, 2 ** 50 + 3, 21 * 10 ** 14 - 1, 15 * 10 ** 14 + 7):
    assert Unit(bits = n / 100).satoshis == n and Unit(satoshis = n).satoshis == n, n
''')

own(*OWN2)
own('c12-pubkey-part', 'c25-tx-slots', 'c16-mixed', 'c19-cltv-second', 'c10-int-pairs', 'c22-amount-many', 'c24-output-eq', 'c10-finish-twice', 'c19-limit-inside', 'c21-half-even')

"""
Functions of the library with arguments that are close to each other: equal in their
first or last bytes, in their length, sum or set of bytes, or as numbers modulo a power
of two.  A result remembered under a key that forgets part of the argument, or a table
that overflows, mixes two of them up.
"""
from .ops import *


def around(raw):
    """Byte strings of the same length that differ from raw in few places."""
    n = len(raw)
    flip = lambda i: raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:]
    out = [raw, flip(0), flip(n - 1), flip(n // 2), flip(min(3, n - 1)), flip(max(0, n - 4)), raw[1:] + raw[:1], raw[::-1]]
    if n > 12: out += [flip(8), flip(n - 9), raw[:n // 2] + raw[n // 2:][::-1]]
    return list(dict.fromkeys(out))


B20, B32 = patterned(20, 801), b'\x3c' + patterned(31, 802)
NUMS = [1, 2, 255, 256, 257, 1 + 2 ** 16, 1 + 2 ** 32, 2 ** 61, 3 + 2 ** 61, 1 + 2 ** 64, 1 + 2 ** 128, 1 + 2 ** 255, 2 ** 255, N - 1]


def flips(raw, places):
    return [raw] + [raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:] for i in places]


def cint(v): return bytes([v]) if v < 253 else b'\xfd' + v.to_bytes(2, 'little') if v < 65536 else b'\xfe' + v.to_bytes(4, 'little') if v < 2 ** 32 else b'\xff' + v.to_bytes(8, 'little')


def rawtx():        # not by the library: nothing of it must have run before the first operation
    i1 = patterned(32, 1)[::-1] + bytes(4) + b'\x01\x51' + b'\xff' * 4
    i2 = patterned(32, 2)[::-1] + b'\1\0\0\0' + b'\0' + bytes(4)
    return b'\1\0\0\0\2' + i1 + i2 + b'\2' + (5).to_bytes(8, 'little') + b'\x19' + p2pkh(B20) + (6).to_bytes(8, 'little') + b'\1\x52' + bytes(4)


RAWTX = rawtx()
TXS = flips(RAWTX, [0, 3, 5, 6, 36, 37, 40, len(RAWTX) - 1, len(RAWTX) - 4, len(RAWTX) - 15, 90])
PT = [ec.mul_g(k) for k in (5, 6, 7, N - 5, 1 + 2 ** 64, 5 + 2 ** 128)]
MSIG = lambda d: B.der(*ec.sign(3, int.from_bytes(d, 'big'), 55))
FUNCS = {}
def near(name, f, args, cost=0): FUNCS[name] = (f, args, cost)

near('PrivateKey', lambda s: (PrivateKey(s), PrivateKey(s).to_wif()), NUMS)
near('PrivateKey.to_public_key', lambda s: PrivateKey(s).to_public_key(), NUMS[:1] + NUMS[3:], 12)
near('PrivateKey.to_address', lambda s: PrivateKey(s).to_address(), NUMS[3:9], 12)
near('PrivateKey.from_wif', PrivateKey.from_wif, [B.b58cenc(b'\x80' + r + e) for r in around(B32) for e in (b'', b'\1')])
near('PrivateKey.from_hex', PrivateKey.from_hex, [r.hex() for r in around(B32)] + [B32.hex().upper()])
near('PublicKey.from_bytes', PublicKey.from_bytes, [p + x.to_bytes(32, 'big') for x, y in PT for p in (b'\2', b'\3')] + [b'\4' + x.to_bytes(32, 'big') + yy.to_bytes(32, 'big') for x, y in PT[:3] for yy in (y, ec.P - y, y ^ 1)], 1)
near('PublicKey', lambda p: (PublicKey(p), PublicKey(p).to_bytes(), PublicKey(p).to_address()), [(x, yy) for x, y in PT for yy in (y, ec.P - y)], 1)
near('Address', lambda h: (Address(h).to_string(), Address(h, 'testnet', Address.Type.Script).to_string()), around(B20))
near('Address.from_string', Address.from_string, [B.b58cenc(v + h) for h in around(B20) for v in (b'\0', b'\5', b'\x6f')])
near('Address.from_hex', Address.from_hex, [(b'\0' + h).hex() for h in around(B20)] + [(b'\0' + B20).hex().upper()])
near('Address.from_script', lambda r: Address.from_script(Script.from_bytes(r)), [b'\x51', b'\x52', b'\x51\x51', b'\x51\x52', b'\x52\x51', b'\x01\x51', b''])
near('base58', encoding.encode_base58h, around(patterned(25, 5)) + [b'', b'\0', b'\0\0', b'\0' * 8, b'\1', b'\0\1'])
near('base58 decode', encoding.decode_base58h, [B.b58cenc(r) for r in around(patterned(25, 5))] + ['', '1', B.b58cenc(b'\0'), B.b58cenc(b'\0\0'), B.b58cenc(patterned(25, 5))[:-1] + '1', B.b58cenc(patterned(25, 5))[:-1], B.b58cenc(patterned(25, 5)).swapcase()])
near('hex', encoding.decode_hex, ['ab', 'AB', 'aB', 'ba', 'abab', 'a', '', 'ag'])
near('hashes of', lambda d: [g(d) for g in (encoding.sha256, encoding.sha1, encoding.ripemd160, encoding.hash160, UE.double_sha256, UE.hash160)], around(patterned(40, 6)) + [b'', b'\0', b'\0\0'])
for size in (1, 4, 8, 16, 20, 21, 32, 33, 64, 65, 80, 200):
    near('hashes of %d bytes' % size, lambda d: [g(d) for g in (encoding.sha256, encoding.sha1, encoding.ripemd160, encoding.hash160, UE.double_sha256, UE.hash160)], around(patterned(size, 66)))
near('encode_int', lambda n: [encoding.encode_int(n, big_endian=b, length=40) for b in (True, False)], NUMS + [0])
near('decode_int', lambda d: [encoding.decode_int(d), encoding.decode_int(d, False)], around(b'\1\2\3\4\5') + [b'\0\1', b'\1', b'\1\0', b''])
near('encode_varint', encoding.encode_varint, [0, 1, 252, 253, 254, 255, 256, 65535, 65536, 65537, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1])
near('read_varint', lambda d: (lambda b: (b.read_varint(), bytes(b)))(Buffer(d)), [cint(v) + b'z' for v in (0, 1, 252, 253, 254, 255, 256, 65535, 65536, 65537, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1)])
near('script number', lambda n: (encoding.encode_script_number(n), encoding.decode_script_number(encoding.encode_script_number(n), size=9)), [0, 1, -1, -2, 2 ** 61 - 1, 2 ** 61, -2 ** 61, 127, 128, -127, -128, 255, 256, -255, -256, 32767, 32768, -32768, 2 ** 31, -2 ** 31, 1 + 2 ** 32])
near('decode_script_number', lambda d: [call(encoding.decode_script_number, d, m)[1] for m in (False, True)], [b'', b'\0', b'\x80', b'\1', b'\x81', b'\1\0', b'\1\x80', b'\x80\0', b'\xff\0', b'\xff', b'\xff\x80'])
near('Script.from_bytes', lambda r: (Script.from_bytes(r), Script.from_bytes(r).to_hash(), Script.from_bytes(r).get_structure()), flips(p2pkh(B20), [0, 1, 3, 12, 21, 23, 24]) + flips(b'\xa9\x14' + B20 + b'\x87', [0, 2, 21, 22]) + [multisig(1, [K1, K2]), multisig(2, [K1, K2]), multisig(1, [K1, K3]), multisig(1, [K2, K1]), multisig(1, [K3, K2])])
near('Script.from_string', Script.from_string, ['OP_1', 'OP_2', 'OP_16', 'OP_1 OP_2', 'OP_2 OP_1', '1 0x01', '1 0x02', '2 0x0102', '2 0x0201', 'OP_PUSHDATA1 1 0x01', 'OP_PUSHDATA2 1 0x01', 'OP_10', 'OP_1ADD', 'OP_HASH160', 'OP_HASH256'])
near('compile', lambda d: Script.compile([d]), [b'a' * n for n in (1, 2, 75, 76, 77, 255, 256, 257)] + [b'b', b'b' * 75, b'b' * 76])
near('script parts', lambda r: [(g, call(getattr(Script.from_bytes(r), g))[1]) for g in GETTERS if hasattr(Script.from_bytes(r), g)], [T.push(SIG1) + T.push(K1), T.push(SIG1) + T.push(K2), T.push(SIG2) + T.push(K1), multisig(1, [K1, K2]), multisig(2, [K2, K1]), b'\0' + T.push(SIG1) + T.push(b'\x51'), b'\0' + T.push(SIG1) + T.push(b'\x52'), b'\0' + T.push(SIG1) + T.push(SIG2) + T.push(b'\x51')], 1)
near('Opcode', lambda n: (Opcode(n), Opcode(n).name, Opcode(n).bytes, Opcode(n).is_push(), Opcode.data_length_max(Opcode(n))), [0, 1, 2, 75, 76, 77, 78, 79, 80, 81, 96, 97, 172, 255])
near('Transaction.from_bytes', lambda r: (Transaction.from_bytes(r), Transaction.from_bytes(r).get_id(), Transaction.from_bytes(r).to_hex()), TXS, 1)
near('Input.from_bytes', Input.from_bytes, flips(RAWTX[5:47], [0, 31, 32, 35, 37, 38, 41]))
near('Output.from_bytes', Output.from_bytes, flips((5).to_bytes(8, 'little') + b'\x19' + p2pkh(B20), [0, 4, 7, 12, 20, 33]))
near('AddressOutput', lambda h: AddressOutput.create(5, Address(h)), around(B20))
near('DataOutput', DataOutput.create, around(patterned(30, 7)) + [b'a', b'b', b'aa'])
near('ScriptOutput', lambda r: ScriptOutput.create(5, Script.from_bytes(r)), [b'\x51', b'\x52', b'\x51\x52', b'\x52\x51', b'\x01\x51'])
near('AddressInput', lambda a: AddressInput.create(a[0], a[1], Address(a[2])), [(patterned(32, 1).hex(), 0, B20), (patterned(32, 1).hex(), 1, B20), (patterned(32, 2).hex(), 0, B20), (patterned(32, 1).hex(), 0, B20[::-1]), (patterned(32, 1).hex(), 256, B20)])
near('HDPublicKey.from_string', HDPublicKey.from_string, [bip32.Node(None, PT[k], ch, d, i, p, net).text() for k in (0, 1) for ch in around(CH)[:4] for d, i, p, net in ((1, 0, b'\1\2\3\4', 'livenet'), (1, 1, b'\1\2\3\4', 'livenet'), (1, 0, b'\1\2\3\5', 'testnet'))], 1)
near('HDPublicKey.derive', lambda i: get('Ynear', lambda: HDPublicKey(PublicKey.from_bytes(pub(5)), CH, 0, 0, 0, networks.livenet)).derive(i), [0, 1, 2, 255, 256, 257, 2 ** 16, 2 ** 16 + 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31], 14)
near('HDPrivateKey.derive', lambda i: get('Xnear', lambda: HDPrivateKey(PrivateKey(5), CH, 0, 0, 0, networks.livenet)).derive(i), [0, 1, 256, 257, 2 ** 16 + 1, 2 ** 31, 2 ** 31 + 1, 2 ** 31 + 257], 36)
near('HDPrivateKey chain', lambda c: HDPrivateKey(PrivateKey(5), c, 0, 0, 0, networks.livenet).derive(2 ** 31), around(CH)[:6], 36)
near('HD of texts', lambda t: HDPrivateKey.from_string(t), [bip32.Node(s, ec.mul_g(s), CH, 1, i, p, 'livenet').text() for s in (5, 5 + 2 ** 64) for i in (0, 1, 256) for p in (b'\1\2\3\4', b'\1\2\3\5')], 12)
near('from_seed', HDPrivateKey.from_seed, around(patterned(32, 1)), 12)
near('sign', lambda d: with_entropy(patterned(40, 9), lambda: get('K3near', lambda: PrivateKey(3)).sign(d)), around(D1)[:6], 40)
near('sign with', lambda s: with_entropy(patterned(40, 9), lambda: PrivateKey(s).sign(D1)), NUMS[4:9], 40)
near('verify', lambda a: get('K3near', lambda: PrivateKey(3)).verify(a[0], a[1]), [(MSIG(d), e) for d in around(D1)[:3] for e in around(D1)[:3]], 110)
near('DER', signature.validate_signature, flips(SIG1, [0, 1, 2, 3, 4, 20, len(SIG1) - 1, len(SIG1) - 2, 36, 37]) + [SIG1[:-1], SIG1 + b'\1'])
near('Unit', lambda v: (Unit(btc=v), Unit(mbtc=v), Unit(bits=v), Unit(satoshis=v)), [0, 1, 2, 0.1, 0.10000001, 1.5, 1.50000001, 100, 256, 1e6, 20999999.9769, 0.5, 1.49])
near('fiat of', lambda a: Unit.from_fiat(*a), [(10, 300), (10, 300.5), (300, 10), (10.5, 300), (10, 30), (1, 300)])
near('URI', lambda t: (URI(t), URI(t).to_uri(), URI.is_valid(t)), ['bitcoin:' + AD, 'bitcoin:' + AD2, 'bitcoin:%s?amount=1' % AD, 'bitcoin:%s?amount=1.1' % AD, 'bitcoin:%s?amount=11' % AD, 'bitcoin:%s?amount=12' % AD, 'bitcoin:%s?amount=1.2' % AD, 'bitcoin:%s?amount=3.4' % AD, 'bitcoin:%s?amount=1.2&x=1' % AD, 'bitcoin:%s?amount=1.2&x=2' % AD, 'bitcoin:%s?label=1' % AD, 'bitcoin:%s?label=a&amount=1' % AD, 'bitcoin:%s?amount=1&label=b' % AD, 'bitcoin:%s?x=a' % AD, 'bitcoin:%s?y=a' % AD, 'bitcoin:%s?label=A' % AD, 'bitcoin:%s?label=a' % AD, 'Bitcoin:' + AD])
near('find', lambda a: networks.find(a[0], a[1], raises=False), [(v, n) for v in (0, 5, 111, 196, 128, 239) for n in ('pubkeyhash', 'scripthash', 'wif_prefix')] + [(v, n) for v in (0x0488ade4, 0x0488b21e, 0x04358394, 0x043587cf, 8333, 18333) for n in ('hd_private_key', 'hd_public_key', 'port')])
near('verify scripts', lambda a: [Interpreter().verify(Script.from_bytes(a[0]), Script.from_bytes(a[1]), None, 0, f) for f in (0, 1)], [(b'\x51', b'\x51\x87'), (b'\x52', b'\x51\x87'), (b'\x51', b'\x52\x87'), (b'\x52', b'\x52\x87'), (b'\x51\x52', b'\x87'), (b'\x51', b'\x52'), (b'\x51', b'\0'), (b'\0', b'\x51'), (b'\x01\x51', p2sh(b'\x51')), (b'\x01\0', p2sh(b'\0')), (b'\x01\0', p2sh(b'\x51'))], 1)
near('E.sign', lambda v: E.sign(secp256k1.generator_secp256k1, 5, v), [7, 8, 7 + 2 ** 32, 7 + 2 ** 64, 7 + 2 ** 255], 14)
near('nonces', lambda v: (E.deterministic_generate_k(N, 5, v), E.deterministic_generate_k(N, v, 5)), [7, 8, 7 + 2 ** 32, 7 + 2 ** 64, 7 + 2 ** 255])
near('points', lambda k: k * secp256k1.generator_secp256k1, [3, 4, 3 + 2 ** 16, 3 + 2 ** 32, 3 + 2 ** 64, 3 + 2 ** 128, N - 3], 10)
near('sec', UE.sec_to_public_pair, [p + x.to_bytes(32, 'big') for x, y in PT for p in (b'\2', b'\3')], 1)
near('wif helper', UE.wif_to_tuple_of_prefix_secret_exponent_compressed, [B.b58cenc(v + r + e) for r in around(B32)[:5] for e in (b'', b'\1') for v in (b'\x80', b'\xef')])
near('sqrt mod', lambda m: [NT.modular_sqrt(a, m) for a in (1, 4, 9, 2, 3)], [7, 11, 13, 17, 23, 41, 73, 97])
near('inverse mod', lambda m: [NT.inverse_mod(a, m) for a in (1, 2, 2 ** 16)], [7, 11, 13, 17, 23, 2 ** 61 - 1, N, ec.P] + [m % 2 ** k for m in (N, ec.P) for k in (16, 32, 64, 128)])

# ---- paths that fail, and the less usual ones; an exception's text must tell of its own argument
BADHEX = ['z' * 8, 'y' * 8, 'z' * 300, 'z' * 1200, '0', 'zz', 'z0', '0z', 'xyz', '00z', '0x', ' 00']
BADB58 = ['l' * 8, 'l' * 300, 'l' * 1200, '1', '11', '111', '1111', '11111', 'abc', 'abd', '0', 'O', 'a' * 30, 'a' * 31, B.b58cenc(b'\0' + B20)[:-1] + 'z']
V = lambda sig, lock, flags=0, tx=None, nin=0: (lambda it: (it.verify(Script.from_bytes(sig), Script.from_bytes(lock), tx, nin, flags), it.errstr))(Interpreter())
near('PrivateKey bad', lambda a: PrivateKey(*a), [(0,), (N,), (N + 1,), (2 ** 256,), (-1,), (1, 'nowhere'), (1, 'somewhere'), (2, 'nowhere'), (1, 'livenet2')])
near('PrivateKey.from_wif bad', PrivateKey.from_wif, BADB58 + [B.b58cenc(p + B32 + e) for p in (b'\x81', b'\x82') for e in (b'', b'\1')] + [B.b58cenc(b'\x80' + B32 + e) for e in (b'\2', b'\0', b'\1\1', b'\1\2')] + [B.b58cenc(b'\x80' + B32[:k]) for k in (0, 1, 31)])
near('PrivateKey.from_hex bad', PrivateKey.from_hex, BADHEX + ['00' * k for k in (0, 1, 31, 32, 33)] + ['ff' * k for k in (31, 32, 33)])
near('PrivateKey.from_bytes bad', PrivateKey.from_bytes, [b'1' * 300, b'1' * 1200, b'', b'1', b'2', b'1' * 31, b'2' * 31, b'1' * 33, b'2' * 33, b'\0' * 32, b'\xff' * 32])
near('PublicKey bad', lambda a: PublicKey(*a), [((1, 2),), ((1, 3),), ((2, 1),), ((0, 0),), (PT[0], 'nowhere'), (PT[0], 'somewhere'), (PT[1], 'nowhere')])
near('PublicKey.from_hex bad', PublicKey.from_hex, BADHEX + ['02', '03', '02' + 'ff' * 32, '03' + 'ff' * 32, '04' + 'ff' * 64, '05' + '11' * 32, '06' + '11' * 32, '02' + '00' * 31, '02' + '05'.zfill(64), '03' + '05'.zfill(64), '07' + '11' * 64, '04' + '11' * 64, '04' + '12' * 64, ''])
near('PublicKey to_hex', lambda p: (PublicKey(p).to_hex(), repr(PublicKey(p, 'testnet'))), PT)
near('Address bad', lambda a: Address(*a), [(b'1' * 19,), (b'2' * 19,), (b'1' * 21,), (b'',), (B20, 'nowhere'), (B20, 'somewhere'), (B20, 'livenet', 'x'), (B20, 'livenet', 'y'), (bytearray(B20),), (bytearray(B20[::-1]),)])
near('Address.from_bytes bad', Address.from_bytes, [b'1' * 300, b'1' * 1200, b'', b'\0', b'\0' + B20[:-1], b'\0' + B20 + b'1', b'\1' + B20, b'\2' + B20, b'\5' + B20[:-1], b'\3' + B20[::-1]])
near('Address.from_hex bad', Address.from_hex, BADHEX + ['', '00', '01' + B20.hex(), '02' + B20.hex()])
near('Address.from_string bad', Address.from_string, BADB58 + [B.b58cenc(v + B20) for v in (b'\1', b'\2', b'')] + ['\u0661', '\udc80', '\udc81'])
near('networks.find bad', lambda a: networks.find(*a), [('x',), ('y',), (1, 'x'), (1, 'y'), (7, 'pubkeyhash'), (8, 'pubkeyhash'), ('livenet', 'alias')])
near('read bad', lambda d: (lambda b: [call(b.read_varint)[1], call(b.read, 2)[1], call(b.finish)[1], bytes(b)])(Buffer(d)), [b'', b'\xfd', b'\xfd\1', b'\xfd\1\0', b'\xfd\2\0', b'\xfe\1\0', b'\xfe\1\0\0\0', b'\xfe\2\0\0\0', b'\xff' + b'\1' + b'\0' * 7, b'\xff' + b'\2' + b'\0' * 7, b'\1abc', b'\2abcd'])
near('varint helpers', lambda v: (encoding.encode_varint(v), Buffer(encoding.encode_varint(v)).read_varint()), [2 ** 16, 2 ** 16 + 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63])
near('script number bad', lambda d: call(encoding.decode_script_number, d, True)[1], [b'\0', b'\x80', b'\1\0', b'\2\0', b'\1\x80', b'a' * 5, b'b' * 5, b'a' * 6, b'\xff\0\0'])
near('script number negative', lambda n: (encoding.encode_script_number(n), encoding.decode_script_number(encoding.encode_script_number(n))), [-128, -129, -255, -256, -32768, -32769, 128, 32768, -8388608])
near('Instruction', lambda a: (lambda i: (i, i.to_bytes(), i.to_hex(), i.to_string(), repr(i), i.is_minimal_push(), i == Instruction(Opcode(1), b'\1'), hash(i) == hash(Instruction(*((Opcode(a[0]),) + a[1:])))))(Instruction(*((Opcode(a[0]),) + a[1:]))),
     [(0, b''), (0x51,), (0x4f,), (0x61,), (1, b'\1'), (1, b'\x10'), (1, b'\x11'), (1, b'\x81'), (1, b'\x82'), (2, b'\1\2'), (75, b'a' * 75), (75, b'b' * 75)] + [(o, x * n) for o, ns in ((76, (0, 1, 75, 76, 255)), (77, (0, 75, 255, 256)), (78, (1, 255, 256, 65535, 65536))) for n in ns for x in (b'a', b'b')] + [(1,), (2,), (1, b'ab'), (2, b'a'), (0x51, b'a'), (0x52, b'a'), (76, b'a' * 256), (76, b'b' * 257)], 1)
near('Instruction of', lambda a: Instruction(*a), [(5,), (6,), ('OP_1',), (None, b'a'), (None, 5)])
near('Opcode number', Opcode, [-1, -2, 256, 257, 1000])
near('Opcode value', lambda n: [call(f)[1] for f in (lambda: Opcode(n).number_value(), lambda: Opcode.data_length_max(Opcode(n)), lambda: Opcode.data_length_nbytes(Opcode(n)), lambda: Opcode(n) < Opcode(80), lambda: Opcode(n) < 80, lambda: Opcode(n) < 'x', lambda: repr(Opcode(n)))], [0, 1, 75, 76, 77, 78, 79, 80, 81, 96, 97, 200, 255])
near('Opcode.for_number', Opcode.for_number, [-1, 0, 1, 2, 16, 17, 18])
near('Opcode.from_name', Opcode.from_name, ['X' * 300, 'OP_' + 'X' * 1200, 'OP_0', 'OP_FALSE', 'OP_1', 'OP_TRUE', 'OP_2', 'OP_NOP2', 'OP_X', 'OP_Y', '', 'op_1', 'OP_PUSHDATA1', 'OP_PUSHDATA2'])
near('Opcode pushes', lambda n: [call(f, n)[1] for f in (Opcode.const_push_for, Opcode.var_push_for, Opcode.push_for)], [-1, -2, 0, 1, 2, 75, 76, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1])
near('Script.from_string bad', Script.from_string, ['OP_' + 'X' * 300, '1 0x' + '0' * 1200, 'OP_X', 'OP_Y', '1', '2', '1 ab', '2 ab', '1 0x', '2 0x00', '3 0x00', '1 0x0', '1 0xzz', 'OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA1 1', 'OP_PUSHDATA2 1', 'OP_PUSHDATA1 2 0xab', 'OP_PUSHDATA2 3 0xab', 'OP_PUSHDATA1 x 0xab', 'OP_PUSHDATA1 y 0xab', 'OP_PUSHDATA1 1 ab', 'OP_PUSHDATA1 1 0xzz', '\u00b2 0x00', '\u00b3 0x00', '99 0x00', '76 0x00', 'x'])
near('Script.from_bytes bad', lambda r: Script.from_bytes(r), [b'\1', b'\2', b'\2a', b'\x4c', b'\x4c\1', b'\x4c\2a', b'\x4d', b'\x4d\1', b'\x4d\1\0', b'\x4e\1\0\0\0', b'\x4e\2\0\0\0a', b'\x51\1', b'\x52\2a'])
near('Script forms', lambda r: (lambda s: (repr(s), s.to_hex(), s.to_string(), s == Script.from_bytes(r), s.is_push_only()))(Script.from_bytes(r)), list(RAWS[k] for k in ('1', '2', 'pkh', 'pkh0', 'sh', 'm1', 'm2', 'in', 'in2', 'push1', 'push2', 'ret')))
near('compile more', lambda x: Script.compile([Opcode(0x51) if o == 'op' else (Opcode(o[0]), o[1]) if type(o) is list else o for o in x]), [(0x51,), (0x52,), ('op',), (b'a', 0x51), (b'b', 0x51), ((0x4c, b'a'),), ((0x4d, b'a'),), ([0x4c, b'a'],), ([0x4d, b'b'],), (None,), (1.5,), ('x',), ((1, b'ab'),), (b'',), (300,)])
near('Input.create', lambda r: Input.create(patterned(32, 1).hex(), 0, Script.from_bytes(r), 7), [b'\x51', b'\x52', RAWS['in'], RAWS['in2'], RAWS['shin'], b'\0' + T.push(SIG2) + T.push(b'\x52'), b''])
near('Input forms', lambda a: (lambda i: (i.to_hex(), Input.from_hex(i.to_hex()), call(i.sign, [PrivateKey(1)], b'\1' * 32)[1]))(Input(a[0], a[1], Script.from_bytes(a[2]), a[3])), [(patterned(32, 1).hex(), 0, b'', 0), (patterned(32, 2).hex(), 1, b'\x51', 5), ('00' * 31, 0, b'', 0), ('00' * 33, 0, b'', 0), ('zz' * 32, 0, b'', 0), ('zy' * 32, 0, b'', 0), ('00' * 32, 2 ** 32, b'', 0), ('00' * 32, -1, b'', 0), ('00' * 32, 0, b'', 2 ** 32)])
near('signing counts', lambda a: [call(f, [PrivateKey(k) for k in a[1]], *rest)[1] for i in [AddressInput.create(patterned(32, 1).hex(), 0, Address(B.hash160(K1))) if a[0] == 'addr' else MultisigInput.create(patterned(32, 1).hex(), 0, [PublicKey.from_bytes(k) for k in (K1, K2)], 1)] for f, rest in ((i.can_sign, ()), (i.sign, (b'\1' * 32,)) if len(a[1]) != 1 else (lambda ks: None, ()))], [(w, ks) for w in ('addr', 'multi') for ks in ((), (1,), (3,), (1, 2), (1, 2, 3))], 20)
near('can_sign of two', lambda ks: MultisigInput.create(patterned(32, 1).hex(), 0, [PublicKey.from_bytes(k) for k in (K1, K2, K3)], 2).can_sign([PrivateKey(k) for k in ks]), [(1, 2), (2, 1), (1, 3), (1, 1), (1, 4), (1,), (4, 5)], 30)
near('Output bad', lambda a: Output(a, Script.from_bytes(b'\x51')), [-1, -2, 21 * 10 ** 14, 21 * 10 ** 14 + 1, 21 * 10 ** 14 + 2, 2 ** 63, 2 ** 64, 0, 1])
near('DataOutput bad', DataOutput.create, [b'a' * 80, b'b' * 80, b'a' * 81, b'a' * 82, b'a' * 255, b'', b'\0'])
near('Output.create', lambda r: Output.create(7, Script.from_bytes(r)), [RAWS[k] for k in ('1', '2', 'pkh', 'pkh0', 'sh', 'sh H', 'ret', 'ret2', 'm1', 'm2')])
near('Transaction bad', lambda a: Transaction([Input(patterned(32, 1).hex(), 0, Script.from_bytes(b''))], [Output(1, Script.from_bytes(b'\x51'))], *a), [(0, 1), (1, 1), (0, 2), (-1, 1), (-2, 1), (2 ** 32, 1), (2 ** 32 + 1, 1), (0, -1), (0, 2 ** 32), (0, 2 ** 31), (2 ** 32 - 1, 1)])
near('Transaction.from_hex bad', Transaction.from_hex, BADHEX + ['', '01', '01000000', '02000000', RAWTX.hex()[:-2], RAWTX.hex()[:-4], RAWTX.hex() + '00', RAWTX.hex() + '01', '0100000000'])
near('signature payload', lambda a: Transaction.from_bytes(RAWTX[:-1] + bytes([a[2]])).get_signature_payload(a[1], a[0]), [(t, i, v) for t in (1, 2, 3, 0x81, 0x82, 0x83) for i in (0, 1) for v in (0, 1)] + [(t, 0, 0) for t in (0, 4, 5, 6, 0x11, 0x21, 0x41, 0x61, 0xa1, 0x80, 0xff)])
near('signature payload, one output', lambda a: (lambda t: Transaction(t.inputs, t.outputs[:1]).get_signature_payload(a[1], a[0]))(Transaction.from_bytes(RAWTX)), [(t, i) for t in (1, 2, 3, 0x83) for i in (0, 1)])
near('sign index', lambda i: Transaction.from_bytes(RAWTX).sign([PrivateKey(1)], i), [-1, -2, 2, 3, 100, 0, 1])
near('Unit bad', lambda k: Unit(**k), [{}, {'x': 1}, {'btc': 1, 'bits': 2}, {'btc': 'x'}, {'btc': None}, {'satoshis': 1.5}])
near('Unit forms', lambda v: (str(Unit(satoshis=v)), repr(Unit(satoshis=v)), Unit(satoshis=v).at_rate(3), Unit(satoshis=v).at_rate(4)), [0, 1, 2, 256, 10 ** 8, 10 ** 8 + 1])
near('URI bad', lambda t: (call(URI, t)[1], call(URI.is_valid, t)[1]), ['', 'x', 'y', 'bitcoin:', 'bitcoin:x', 'bitcoin:y', 'bitcoin:%s?amount=x' % AD, 'bitcoin:%s?amount=y' % AD, 'bitcoin:%s?amount=inf' % AD, 'bitcoin:%s?amount=-inf' % AD, 'bitcoin:%s?amount=nan' % AD, 'bitcoin:%s?req-x=1' % AD, 'bitcoin:%s?req-y=1' % AD, 'http:' + AD, 'https:' + AD, 5, 6, None])
near('URI of', lambda d: (URI(dict(d)), d), [{'address': AD}, {'address': AD2}, {'address': AD, 'amount': 1}, {'address': AD, 'amount': 2}, {'address': AD, 'label': 'a'}, {'address': AD, 'message': 'a'}, {}, {'address': 'x'}, {'amount': 1}, {'address': AD, 'x': 'a'}])
near('HD from_string bad', lambda t: [call(HDPrivateKey.from_string, t)[1], call(HDPublicKey.from_string, t)[1]], BADB58[:6] + [B.b58cenc(b'\1' * 78), B.b58cenc(b'\2' * 78), B.b58cenc(b'\1' * 77), B.b58cenc(bytes.fromhex('0488ade4') + b'\1' * 73), B.b58cenc(bytes.fromhex('0488b21e') + b'\1' * 73), bip32.Node(5, PT[0], CH, 0, 0, bytes(4), 'livenet').text(), bip32.Node(5, PT[0], CH, 0, 0, bytes(4), 'livenet').neuter().text()], 2)
near('HD derive bad', lambda a: [call(HDPublicKey(PublicKey.from_bytes(pub(5)), CH, 0, 0, 0, networks.livenet).derive, *a)[1], call(HDPrivateKey(PrivateKey(5), CH, 0, 0, 0, networks.livenet).derive, *a)[1]], [(-1,), (-2,), (2 ** 32,), (2 ** 32 + 1,), (2 ** 31, True), (2 ** 31 + 1, True)], 30)
near('HD public derive hardened', lambda a: HDPublicKey(PublicKey.from_bytes(pub(5)), CH, 0, 0, 0, networks.livenet).derive(*a), [(2 ** 31,), (2 ** 31 + 1,), (0, True), (1, True), (2 ** 32 - 1,)])
near('HD from_seed', lambda n: with_entropy(patterned(40 + n, 13), HDPrivateKey.from_seed), [1, 2, 3], 12)
near('HD from_seed bad', HDPrivateKey.from_seed, [b'', b'1', b'2' * 15, b'2' * 31, b'3' * 31, b'1' * 65])
near('nonce reduction', lambda v: E.deterministic_generate_k(N, 5, v), [N, N + 1, N + 7, 2 ** 256 - 1, N - 1])
near('nonce small', lambda n: [E.deterministic_generate_k(n, 5 % n or 1, v) for v in (1, 2, 3)], [11, 13, 29, 31, 101, 1009, 257, 131])
near('recover', lambda a: sorted(E.possible_public_pairs_for_signature(tiny(), a[0], (a[1], a[2]))), [(v, r, s) for v in (1, 2) for r in (1, 4, 8, 9) for s in (1, 2)])
near('recover zero', lambda a: call(E.possible_public_pairs_for_signature, tiny(), a[0], (a[1], a[2]))[1], [(1, 0, 1), (1, 1, 0), (2, 5, 1), (3, 5, 1), (1, 2, 3)])
near('tiny verify', lambda a: E.verify(tiny(), tuple(a[:2]), a[2], tuple(a[3:])), [(13, 12, 1, 4, 2), (13, 12, 1, 4, 3), (13, 11, 2, 4, 2), (0, 2, 1, 4, 2), (0, 2, 1, 0, 2), (0, 2, 1, 29, 2), (0, 2, 1, 4, 0), (0, 2, 1, 4, 29), (0, 3, 1, 4, 2)])
near('tiny points', lambda k: (lambda t: (str(k * t), k * t + (29 - k) * t, str(k * t + EC.INFINITY), (k * t).double(), (k * t) + (k * t) if k != 29 else None, str(t.curve())))(tiny()), [1, 2, 3, 14, 28, 29, 30])
GENS = [(23, 1, 29), (23, 19, 23), (23, 22, 31), (31, 4, 31), (31, 7, 31), (37, 5, 41), (37, 11, 43), (47, 1, 59), (47, 25, 41), None]     # all through (0, 2)
def gen(g): return secp256k1.generator_secp256k1 if g is None else EC.Point(EC.CurveFp(g[0], g[1], 4), 0, 2, g[2])
def curves(name, f, args): near(name + ' on curves', lambda a: f(gen(a[0]), *a[1:]), [(g,) + tuple(a) for a in args for g in (GENS if a[-1] is not Ellipsis else GENS[:-1])])
curves('public_pair_for_x', lambda g, x, even: E.public_pair_for_x(g, x, even), [(0, True), (0, False), (1, True), (2, False), (4, True)])
curves('is_public_pair_valid', lambda g, x, y: E.is_public_pair_valid(g, (x, y)), [(0, 2), (0, 21), (1, 11), (0, 45), (4, 7)])
curves('public_pair_for_secret_exponent', lambda g, k: E.public_pair_for_secret_exponent(g, k), [(1,), (2,), (5,), (20,)])
curves('deterministic nonce', lambda g, k, v: E.deterministic_generate_k(g.order(), k, v), [(3, 4), (3, 5), (4, 3)])
curves('small signatures', lambda g, k, v, _: E.sign(g, k, v), [(3, 4, ...), (3, 5, ...), (4, 3, ...)])
curves('small verify', lambda g, x, y, v, r, s, _: E.verify(g, (x, y), v, (r, s)), [(0, 2, 1, 4, 2, ...), (0, 2, 1, 1, 1, ...), (0, 2, 3, 6, 5, ...), (0, 2, 2, 7, 9, ...)])
curves('small recovery', lambda g, v, r, s, _: call(E.possible_public_pairs_for_signature, g, v, (r, s))[1], [(1, 4, 2, ...), (1, 1, 1, ...), (3, 6, 5, ...), (2, 7, 9, ...)])
curves('points', lambda g, k, _: [show(x) for x in (k * g, g + k * g, (k * g).double(), g * k + g)], [(2, ...), (3, ...), (7, ...), (22, ...)])
near('roots', lambda a: call(NT.modular_sqrt, *a)[1], [(a, p) for a in (0, 1, 2, 3, 4, 9, 16) for p in (3, 7, 11, 13, 17, 23, 31, 37, 41, 43, 47)])
near('inverses', lambda a: call(NT.inverse_mod, *a)[1], [(a, p) for a in (0, 1, 2, 3, 4, 9, 16) for p in (3, 7, 11, 13, 17, 23, 31, 37, 41, 43, 47)])
near('symbols', lambda a: call(NT.legendre_symbol, *a)[1], [(a, p) for a in (0, 1, 2, 3, 4, 9, 16) for p in (3, 7, 11, 13, 17, 23, 31, 37, 41, 43, 47)])
near('curve texts', lambda a: (repr(EC.CurveFp(*a)), str(EC.CurveFp(*a)), repr(EC.Point(EC.CurveFp(*a), 0, 2)), str(EC.Point(EC.CurveFp(*a), 0, 2))), [(23, 1, 4), (37, 1, 4), (41, 2, 4), (43, 3, 4)])
near('points off the curve', lambda a: EC.Point(EC.CurveFp(23, 1, 4), *a), [(0, 1), (0, 3), (1, 2), (5, 5), (None, 1)])
near('order two', lambda a: (lambda p: [str(p + p), str(p.double()), str(p)])(EC.Point(EC.CurveFp(*a[0]), a[1], 0)), [((23, 1, 0), 0), ((37, 1, 0), 0), ((37, 1, 0), 6), ((23, 22, 0), 1)])
near('sqrt zero', lambda a: call(NT.modular_sqrt, *a)[1], [(0, 7), (0, 11), (0, 2), (1, 2), (2, 2), (3, 7), (5, 11), (2, 3)])
near('bytes helpers', lambda n: (intbytes.to_bytes(n, length=9), intbytes.to_bytes(n, length=9, byteorder='little'), intbytes.from_bytes(n.to_bytes(3, 'big')), intbytes.from_bytes(n.to_bytes(3, 'little'), byteorder='little'), intbytes.int_to_bytes(n), intbytes.int_from_bytes(n.to_bytes(3, 'big')), intbytes.from_bytes((n + 2 ** 23).to_bytes(3, 'big'), signed=True)), [0, 1, 255, 256, 257, 65536, 65537])
near('32 bytes', lambda n: (call(UE.to_bytes_32, n)[1], call(UE.from_bytes_32, n.to_bytes(33, 'big')[1:])[1]), [0, 1, 256, 2 ** 128, 2 ** 255, 2 ** 255 + 1, 2 ** 256, 2 ** 256 + 1])
near('32 bytes bad', lambda d: call(UE.from_bytes_32, d)[1], [b'', b'\1', b'\2', b'\1' * 31, b'\1' * 33])
near('base conversions', lambda v: [call(UE.from_long, v, 0, b, lambda x: b'abc'[x] if x < 3 else None)[1] for b in (2, 3, 4)] + [call(UE.to_long, b, lambda c: 'abc'.index(c), t)[1] for b in (2, 3) for t in ('abc', 'x', 'y')], [0, 1, 2, 3, 4, 5, 10, 11])
near('text helpers', lambda t: (UE.is_hashed_base58_valid(t), UE.is_valid_wif(t), UE.is_valid_bitcoin_address(t), call(UE.a2b_base58, t)[1], call(UE.a2b_hashed_base58, t)[1]), BADB58 + [B.b58cenc(v + H) for v in (b'\0', b'\x6f', b'\5', b'')] + [B.b58cenc(b'\x80' + B32), B.b58cenc(b'\x80' + B32 + b'\1'), B.b58cenc(b'\xef' + B32), '\udc80', '\udc81'])
near('WIF helpers', lambda s: [(UE.secret_exponent_to_wif(s, c, p), call(UE.wif_to_tuple_of_secret_exponent_compressed, UE.secret_exponent_to_wif(s, c, p))[1], UE.is_valid_wif(UE.secret_exponent_to_wif(s, c, p), [p])) for c in (True, False) for p in (b'\x80', b'\xef')], NUMS[:6], 1)
near('WIF helpers bad', lambda t: [call(UE.wif_to_secret_exponent, t)[1], call(UE.wif_to_tuple_of_prefix_secret_exponent_compressed, t)[1]], [B.b58cenc(b'\x80' + B32 + e) for e in (b'\2', b'\3', b'\1\1')] + [B.b58cenc(b'\x80' + B32[:-k]) for k in (1, 2)] + [B.b58cenc(b'\x81' + B32), B.b58cenc(b'\x82' + B32), B.b58cenc(b'')])
near('SEC helpers bad', UE.sec_to_public_pair, [b'', b'\2', b'\2' * 32, b'\2' * 34, b'\5' + b'\1' * 32, b'\6' + b'\1' * 32, b'\2' + b'\xff' * 32, b'\3' + b'\xff' * 32, b'\2' + bytes(31) + b'\5', b'\3' + bytes(31) + b'\5', b'\4' + b'\1' * 64, b'\4' + b'\2' * 64, b'\7' + b'\1' * 64])
near('address helpers', lambda a: (call(UE.bitcoin_address_to_hash160_sec, B.b58cenc(a[0]), a[1])[1], call(UE.bitcoin_address_to_hash160_sec_with_prefix, B.b58cenc(a[0]))[1], UE.is_valid_bitcoin_address(B.b58cenc(a[0]), a[1])), [(v + H, q) for v in (b'\0', b'\5', b'\x6f') for q in (b'\0', b'\x6f')] + [(b'\0' + H[:-1], b'\0'), (b'\0' + H[:-2], b'\0'), (b'\0' + H[1:], b'\0'), (b'\7' + H, b'\0')])
near('pair helpers', lambda p: [(UE.public_pair_to_bitcoin_address(p, c, v), UE.public_pair_to_sec(p, c), UE.public_pair_to_hash160_sec(p, c)) for c in (True, False) for v in (b'\0', b'\x6f')], PT, 1)
near('strict DER', lambda d: call(PrivateKey(3).verify, d, D1)[1], [b'', b'0', b'\x30\0', SIG1[:-2], SIG1, b'\x30\x06\2\1\1\2\1\1' + b'\0', b'\x30\x81\x06\2\1\1\2\1\1', b'\x30\x07\2\2\0\1\2\1\1'], 15)
near('vm errors', lambda a: V(*a), [(b'\x51\x61', b'', vm.SIGPUSHONLY), (b'\x52\x61', b'', vm.SIGPUSHONLY), (b'\1a', b'\x88'), (b'\1a', b'\1b\x88'), (b'\1a', b'\1c\x88\x51'), (b'\x51', b'\x52\x9d'), (b'\x52', b'\x53\x9d'), (b'\0', b'\x69\x51'), (b'\1\x80', b'\x69'), (b'\1\x80', b''), (b'\x51\1\x80', b''), (b'', b'\x67'), (b'', b'\x68'), (b'\x51', b'\x68'), (b'', b'\x63\x68'), (b'', b'\x64\x68'), (b'\x51', b'\xb0', vm.DISCOURAGE), (b'\x51', b'\xb3', vm.DISCOURAGE), (b'\x52', b'\xb9', vm.DISCOURAGE)])
near('vm p2sh errors', lambda a: V(*a), [(b'\0', p2sh(b''), vm.P2SH), (b'\1\0', p2sh(b'\0'), vm.P2SH), (T.push(b'\0\0'), p2sh(b'\0\0'), vm.P2SH), (T.push(b'\5'), p2sh(b'\5'), vm.P2SH), (T.push(b'\6'), p2sh(b'\6'), vm.P2SH), (T.push(b'\x75'), p2sh(b'\x75'), vm.P2SH), (b'\x51' + T.push(b'\x75'), p2sh(b'\x75'), vm.P2SH), (b'\x51' + T.push(b'\x75\x51'), p2sh(b'\x75\x51'), vm.P2SH), (b'\x61' + T.push(b'\x51'), p2sh(b'\x51'), vm.P2SH), (b'\x51\x61' + T.push(b'\x52'), p2sh(b'\x52'), vm.P2SH), (T.push(b'\x6a'), p2sh(b'\x6a'), vm.P2SH), (T.push(b'\x51\x6a'), p2sh(b'\x51\x6a'), vm.P2SH)])
near('vm size', lambda a: V(a[0], a[1] * a[2] + a[3]), [(b'\x51', T.push(b'a' * 520), 19, T.push(b'a' * n)) for n in (61, 62, 63, 64)] + [(b'\x52', T.push(b'b' * 520), 19, T.push(b'a' * 63))])
near('vm limits', lambda a: V(a[0], a[1] * a[2]), [(b'\x51', b'\x61', 201), (b'\x51', b'\x61', 202), (b'\x52', b'\x61', 203), (b'\x51', b'\x51', 1000), (b'\x51', b'\x52', 1001), (T.push(b'a' * 521), b'\x61', 1), (T.push(b'b' * 522), b'\x61', 1), (T.push(b'a' * 520), b'\x61', 1), (b'\x51', b'\x7e', 1), (b'\x51', b'\x95', 1), (b'\x51', b'\x50', 1), (b'\x51', b'\xff', 1)], 5)
near('vm lock times', lambda a: V(b'', T.push(a[0]) + b'\xb1\x51', vm.CLTV, lock_tx(a[1], a[2]), 0), [(b'\x64', 100, 0), (b'\x65', 100, 0), (b'\x64', 100, 0xffffffff), (b'\x81', 100, 0), (b'\x82', 100, 0), (b'\0\x65\xcd\x1d', 100, 0), (b'\x64', 600000000, 0), (b'\0\x65\xcd\x1d', 600000000, 0), (b'\0\x65\xcd\x2d', 600000000, 0), (b'a' * 6, 100, 0), (b'', 100, 0)])
near('vm lock times, nothing', lambda a: V(b'', a, vm.CLTV, lock_tx(100, 0), 0), [b'\xb1', b'\xb1\x51', b'\x51\xb1', b'\x61\xb1'])
near('vm signatures', lambda a: V(*a), [(b'', b'\xac'), (b'\x51', b'\xac'), (b'', b'\xae'), (b'\x4f', b'\xae'), (b'\x01\x15', b'\xae'), (b'\x01\x16', b'\xae'), (b'\x51', b'\xae'), (b'\x51\x51\x51', b'\xae'), (b'\x51\x52\x51', b'\xae'), (b'\x53\x51\x51', b'\xae'), (b'\0\x4f\x51\x51', b'\xae'), (b'\0\x53\x51\x51', b'\xae'), (b'\0\0', b'\0\0\xae'), (b'\0\0', b'\0\xae'), (b'\x51\0\0', b'\xae'), (b'\x51\0\0', b'\xae', vm.NULLDUMMY), (b'\x52\0\0', b'\xae', vm.NULLDUMMY), (b'\0\0\0', b'\xae', vm.NULLDUMMY), (b'\0\0\0', b'\xaf\x51'), (b'\x51\0\0', b'\xaf\x52'), (b'\0', b'\0\0\xaf')])
near('vm signature counts', lambda a: V(b'\0\0' + b'\x51' * a[0], T.push(bytes([a[0]])) + b'\x61' * a[1] + b'\xae'), [(20, 181), (20, 180), (19, 182), (19, 181), (5, 195), (5, 196)], 6)
near('vm one operation', lambda a: V(b'\x51' * a[0], bytes([a[1]])), [(k, o) for k in (0, 1, 2) for o in range(0x63, 0xb2) if k == 0 or k == 1 and (0x6d <= o <= 0x7d or 0x87 <= o <= 0x88 or 0x93 <= o <= 0xa5 or o >= 0xac) or k == 2 and o in (0x6f, 0x70, 0x71, 0x72, 0x7a, 0x79, 0x7b, 0xa5, 0xae)])
near('vm minimal', lambda a: V(a[0], a[1], vm.MINIMALDATA), [(b'\x01\x05', b''), (b'\x01\x06', b''), (b'\x4c\x01a', b''), (b'\x4c\x01b', b''), (b'\x02\x05\0', b'\x8b'), (b'\x02\x06\0', b'\x8b'), (b'\x01\x81', b''), (b'\x01\x80', b'\x8b'), (b'\x05aaaaa', b'\x8b'), (b'\x05bbbbb', b'\x8b'), (b'\x51', b'\x05aaaab\x93'), (b'\x51', b'\x05aaaac\x93')])

# many different arguments: (function, argument number i, how many)
MANY = {
    'PrivateKey': (lambda s: PrivateKey(s).to_wif(), lambda i: i + 1, 1500), 'base58': (encoding.encode_base58h, lambda i: patterned(21, i), 1500), 'base58 decode': (encoding.decode_base58h, lambda i: B.b58cenc(patterned(21, i)), 1500),
    'Address': (lambda h: Address(h).to_string(), lambda i: patterned(20, i), 1500), 'Address.from_string': (Address.from_string, lambda i: B.b58cenc(b'\0' + patterned(20, i)), 1500), 'Script.from_bytes': (Script.from_bytes, lambda i: p2pkh(patterned(20, i)), 1500),
    'Script.from_string': (Script.from_string, lambda i: 'OP_1 2 0x%04x' % i, 1500), 'hashes': (lambda d: [g(d) for g in (encoding.sha256, encoding.ripemd160, encoding.hash160, UE.double_sha256, UE.hash160)], lambda i: patterned(33, i), 1500),
    'encode_int': (encoding.encode_int, lambda i: i * 7 + 1, 3000), 'decode_int': (encoding.decode_int, lambda i: patterned(8, i), 3000), 'encode_varint': (encoding.encode_varint, lambda i: i * 97, 3000), 'script number': (encoding.encode_script_number, lambda i: i - 1500, 3000),
    'hex': (encoding.decode_hex, lambda i: '%08x' % i, 3000), 'Transaction.from_bytes': (lambda r: Transaction.from_bytes(r).get_id(), lambda i: RAWTX[:-4] + i.to_bytes(4, 'little'), 600), 'Opcode': (lambda n: (Opcode(n), Opcode(n).name), lambda i: i % 256, 600),
    'PublicKey.from_bytes': (PublicKey.from_bytes, lambda i: pub(i + 1), 300), 'Unit': (lambda v: Unit(satoshis=v), lambda i: i * 12345, 3000), 'URI': (URI, lambda i: 'bitcoin:%s?amount=%d.%08d&label=%d' % (AD, i % 7, i, i), 800), 'DER': (signature.validate_signature, lambda i: (SIG1 if i % 2 else SIG1[:-1]) [:-2] + i.to_bytes(2, 'big'), 1500),
    'to_public_key': (lambda s: PrivateKey(s).to_public_key(), lambda i: i + 1, 150), 'HDPublicKey.derive': (lambda i: get('Ynear', lambda: HDPublicKey(PublicKey.from_bytes(pub(5)), CH, 0, 0, 0, networks.livenet)).derive(i), lambda i: i, 150),
    'verify scripts': (lambda n: Interpreter().verify(Script.from_bytes(T.push(n.to_bytes(2, 'little'))), Script.from_bytes(T.push((n - n % 3).to_bytes(2, 'little')) + b'\x87'), None, 0, 0), lambda i: i + 300, 1200), 'DataOutput': (DataOutput.create, lambda i: patterned(20, i), 1000), 'nonces': (lambda v: E.deterministic_generate_k(N, 5, v), lambda i: i + 1, 400),
}

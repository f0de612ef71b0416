"""C23: whatever is read, only the library's own printable errors escape."""
import re
from ..common import *
from ..spend import p2pkh, multisig, T

ID = 'C23'
RULE = ('State: (reading function, input). Every reading function is given every input of a bounded space built without regard to that function: short texts, '
        'all texts one edit away from a valid one of any kind, checked payloads of every length and version, and all short, truncated or altered byte strings. '
        'Each call must return an object of the right class or raise an error of the allowed family whose description can be printed; an object that is returned '
        'must be able to print itself and write itself again.')
BOUNDS = {
    'quick': '24 reading functions x (all texts of length <= 2 over 140 characters, all single edits over 14 characters of 14 valid texts (3 characters for those over 150), 96 lengths x 12 versions x 3 fillings of base58check payloads, every first and last byte and 5 values of each other byte of 5 valid payloads, 60 odd texts, all identifiers of the modules in 8 spellings) '
             'or x (all byte strings of length <= 2, 3 fillings of lengths 0..200, all truncations and all single-byte changes to 10 values of 14 valid encodings)',
    'thorough': 'texts of length <= 3 over 50 characters; single-byte changes to all 256 values; all pairs of edits of script texts over 6 characters',
}
ASSUMPTIONS = ['texts are str and byte strings are bytes or bytearray; arguments of other types are not covered', 'integers of more than 4300 digits cannot be printed by Python itself']
HD = (BitforgeError, ValueError, utils.encoding.EncodingError)
TXID = patterned(32, 4)
LOCK = p2pkh(patterned(20, 5))


def views(o): return [o.to_bytes(), o.to_hex(), repr(o), str(o)]


TEXT = {
    'PrivateKey.from_wif': (lambda s: PrivateKey.from_wif(s), PrivateKey.Error, PrivateKey, lambda o: views(o) + [o.to_wif()]),
    'PrivateKey.from_hex': (lambda s: PrivateKey.from_hex(s), PrivateKey.Error, PrivateKey, lambda o: views(o) + [o.to_wif()]),
    'PublicKey.from_hex': (lambda s: PublicKey.from_hex(s), PublicKey.Error, PublicKey, lambda o: views(o) + [o.to_address()]),
    'Address.from_string': (lambda s: Address.from_string(s), Address.Error, Address, lambda o: views(o) + [o.to_string()]),
    'Address.from_hex': (lambda s: Address.from_hex(s), Address.Error, Address, lambda o: views(o) + [o.to_string()]),
    'HDPrivateKey.from_string': (lambda s: HDPrivateKey.from_string(s), HD, HDPrivateKey, lambda o: [o.to_string(), repr(o)]),
    'HDPublicKey.from_string': (lambda s: HDPublicKey.from_string(s), HD, HDPublicKey, lambda o: [o.to_string(), repr(o)]),
    'Script.from_string': (lambda s: Script.from_string(s), BitforgeError, Script, lambda o: views(o) + [o.to_string()]),
    'Input.from_hex': (lambda s: Input.from_hex(s), BitforgeError, Input, views),
    'Output.from_hex': (lambda s: Output.from_hex(s), BitforgeError, Output, views),
    'Transaction.from_hex': (lambda s: Transaction.from_hex(s), BitforgeError, Transaction, lambda o: views(o) + [o.get_id()]),
    'URI': (lambda s: URI(s), (BitforgeError, ValueError), URI, lambda o: [o.to_uri(), repr(o)]),
    'Opcode.from_name': (lambda s: Opcode.from_name(s), BitforgeError, Opcode, lambda o: [str(o), repr(o)]),
    'decode_hex': (lambda s: encoding.decode_hex(s), BitforgeError, bytes, lambda o: []),
    'decode_base58h': (lambda s: encoding.decode_base58h(s), BitforgeError, bytes, lambda o: []),
}
BYTES = {
    'PrivateKey.from_bytes': (lambda b: PrivateKey.from_bytes(b), PrivateKey.Error, PrivateKey, views),
    'PublicKey.from_bytes': (lambda b: PublicKey.from_bytes(b), PublicKey.Error, PublicKey, views),
    'Address.from_bytes': (lambda b: Address.from_bytes(b), Address.Error, Address, lambda o: views(o) + [o.to_string()]),
    'HDPrivateKey.from_seed': (lambda b: HDPrivateKey.from_seed(b), HD, HDPrivateKey, lambda o: [o.to_string(), repr(o)]),
    'Script.from_bytes': (lambda b: Script.from_bytes(b), BitforgeError, Script, lambda o: views(o) + [o.to_string()]),
    'Input.from_bytes': (lambda b: Input.from_bytes(b), BitforgeError, Input, views),
    'Output.from_bytes': (lambda b: Output.from_bytes(b), BitforgeError, Output, views),
    'Transaction.from_bytes': (lambda b: Transaction.from_bytes(b), BitforgeError, Transaction, lambda o: views(o) + [o.get_id()]),
    'decode_script_number': (lambda b: encoding.decode_script_number(b), BitforgeError, int, lambda o: []),
}
SLOW = ('HDPrivateKey.from_seed',)
ODD = ['', ' ', '\t', '\n', '\0', '{', '}', '{}', '{0}', '{string}', '{number}', '%', '%s', '%(string)s', '\\', "'", '"', '0x', '0x0', '0', '1', '-1', '00', 'O', 'l', 'I', 'é', 'ß', '\u0660', '\uff11', '²', '\ud800', '\udcff', '\U0001f600', '\u200b', '\ufeff',
       'OP_', 'OP_1', 'OP_0', 'OP_DUP', 'op_dup', 'OP_PUSHDATA1', 'OP_PUSHDATA2 1', 'OP_PUSHDATA4 1 0x', 'OP_PUSHDATA1 \u0661 0xaa', '1 0x', '1 0xé', '1 0x\ud800', '76 0x00', '99999999999999999999 0x', '9' * 5000, '1 ' * 500, 'é' * 50, '0' * 1001, 'f' * 4000, '1' * 500, 'z' * 300, '{' * 50, '0x' * 40,
       'bitcoin:', 'bitcoin:{', 'BITCOIN:x', 'bitcoin://[', 'bitcoin:\ud800', 'bitcoin://\u2100', ':', '//', 'PUSH', 'INVALIDOPCODE', '0xff', 'OP_RESERVED OP_VER']
CHARS = [chr(c) for c in range(128)] + ['\x80', '\xff', 'é', '²', '\u0660', '\uff11', '\u2028', '\ud800', '\udfff', '\U0001f600', '\u0130', '\u212a']
EDIT = '0Oz9fgG {%x:\0é\ud800'


def raw_tx():
    ins = ((TXID.hex(), 0, b'\x51', 0xffffffff), (TXID.hex(), 1, LOCK, 7))
    outs = ((5, LOCK), (0, b'\x6a\x02ab'))
    return T.ser((1, ins, outs, 0))


def valid_bytes():
    tx = raw_tx()
    i = T.ser_in((TXID.hex(), 0, LOCK, 7))
    o = T.ser_out((77, LOCK))
    return [pub(5), pub(5, False), b'\0' * 31 + b'\7', bytes([0]) + patterned(20, 5), bytes([196]) + patterned(20, 6), LOCK, multisig(1, [pub(5), pub(6)]), b'\x4c\x02ab\x4d\x01\0a\x4e\x01\0\0\0b', tx, i, o,
            T.ser_out((1, b'\x51' * 253)), b'\x01\x02\x03\x04', patterned(32, 9)]


def valid_texts():
    from ..ref import bip32
    m = bip32.master(patterned(32, 8))
    out = [B.b58cenc(b'\x80' + patterned(32, 1)), B.b58cenc(b'\xef' + patterned(32, 1) + b'\1'), B.b58cenc(b'\0' + patterned(20, 2)), B.b58cenc(b'\xc4' + patterned(20, 2)), m.text(), m.neuter().text(), pub(5).hex(), patterned(32, 1).hex(), (b'\0' + patterned(20, 2)).hex(),
           'bitcoin:%s?amount=1.5&label=x' % B.b58cenc(b'\0' + patterned(20, 2)), 'OP_DUP OP_HASH160 2 0xabcd OP_PUSHDATA1 1 0xff OP_EQUALVERIFY OP_CHECKSIG', T.ser_out((77, b'\x51')).hex(), T.ser_in((TXID.hex(), 0, b'\x51', 7)).hex(), raw_tx().hex()]
    return out


FILL = [lambda n: b'\0' * n, lambda n: b'\xff' * n, lambda n: patterned(n, 3)]


def one(rep, name, row, given):
    f, family, cls, show = row
    rep.step()
    rep.traces += 1
    rep.state(name, given)
    kind, val = call(f, given)
    if kind == 'err':
        if not isinstance(val, family): rep.fail('%s(%s) escapes with %s: %s' % (name, short(given), type(val).__mro__[0:3], short(str_of(val))))
        text = str_of(val)
        if not isinstance(text, str) or not text.strip(): rep.fail('%s(%s): the description of %s is %r' % (name, short(given), type(val).__name__, text))
        left = re.findall(r'\{[a-z_]+\}', text)
        if left and not any(l[1:-1] in str(given) for l in left): rep.fail('%s(%s): the description is not filled in: %s' % (name, short(given), short(text)))
        if not isinstance(repr(val), str): rep.fail('no repr')
        rep.outcome('%s: refused' % name)
        return
    if not isinstance(val, cls): rep.fail('%s(%s) returned a %s' % (name, short(given), type(val).__name__))
    if cls is URI and any(0xd800 <= ord(c) < 0xe000 for c in given): show = lambda o: []      # not a Unicode text
    kind, err = call(show, val)
    if kind == 'err': rep.fail('%s(%s) was accepted, but the object cannot be written or printed: %r' % (name, short(given), err))
    rep.outcome('%s: accepted' % name)


def texts(rep, given, only=None):
    for name, row in TEXT.items():
        if only and name not in only: continue
        one(rep, name, row, given)


def both(rep, given, slow=True):
    for name, row in BYTES.items():
        if name in SLOW and not slow and len(given) >= 32: continue
        one(rep, name, row, given)
        if name not in SLOW and name != 'PublicKey.from_bytes': one(rep, name, row, bytearray(given))


def cases(tier):
    t = tier == 'thorough'
    yield ('odd',)
    for i in range(len(CHARS)): yield ('pairs', i)
    for i in range(len(valid_texts())):
        for part in range(4): yield ('edits', i, part)
    for v in (0, 5, 111, 196, 128, 239, 4, 255, 1, 30, 130, 2):
        for lo in range(0, 96, 24): yield ('payload', v, lo)
    yield ('hd',)
    for i in range(5):
        for part in range(4): yield ('like', i, part)
    for a in range(0, 256, 8): yield ('short', a, a + 8)
    for lo in range(0, 200, 10): yield ('fill', lo, lo + 10)
    for i in range(len(valid_bytes())):
        for part in range(4): yield ('bytes', i, part, t)
    yield ('construct',)
    yield ('names',)
    if t:
        for i in range(50): yield ('triples', i)


def run(case, rep):
    kind = case[0]
    if kind == 'odd':
        for s in ODD:
            texts(rep, s); texts(rep, s + s); texts(rep, 'OP_1 ' + s); texts(rep, s + ' OP_1')
    elif kind == 'pairs':
        a = CHARS[case[1]]
        texts(rep, a)
        for b in CHARS: texts(rep, a + b)
        rep.sample('texts starting with %r' % a)
    elif kind == 'triples':
        al = list('0 1 2 9 a f x z O P _ { } % : ; = & ? # / + - . , \' "'.split()) + [' ', '\t', '\0', '\x85', 'é', '²', '\u0660', '\ud800', '\uff11', 'A', 'F', 'X', 'Z', 'o', 'p', 'l', 'I', '@', '~', '\x7f', 'ß', '[', ']']
        for b in al:
            for c in al: texts(rep, al[case[1] % len(al)] + b + c)
    elif kind == 'edits':
        s = valid_texts()[case[1]]
        if case[2] == 0:
            texts(rep, s)
            for e in (s.upper(), s.lower(), s[::-1], s + s, ' ' + s, s + '\n', s + '\0', '{' + s + '}', s.replace('0', 'O'), s.swapcase()): texts(rep, e)
            for n in range(len(s)): texts(rep, s[:n])
        for j, e in enumerate(edits(s, EDIT if len(s) <= 150 else '0g{', transpose=False)):
            if j % 4 != case[2]: continue
            texts(rep, e)
    elif kind == 'payload':
        _, v, lo = case
        for n in range(lo, lo + 24):
            for f in FILL:
                s = B.b58cenc(bytes([v]) + f(n))
                texts(rep, s, ('PrivateKey.from_wif', 'Address.from_string', 'HDPrivateKey.from_string', 'HDPublicKey.from_string', 'decode_base58h', 'URI'))
                texts(rep, 'bitcoin:' + s, ('URI',))
                bad = s[:-1] + ('2' if s[-1] != '2' else '3')
                texts(rep, bad, ('PrivateKey.from_wif', 'Address.from_string', 'HDPrivateKey.from_string', 'HDPublicKey.from_string', 'decode_base58h'))
        for n in (0, 1, N - 1, N, N + 1, 2 ** 256 - 1):
            for tail in (b'', b'\1', b'\0', b'\2'): texts(rep, B.b58cenc(bytes([v]) + n.to_bytes(32, 'big') + tail), ('PrivateKey.from_wif', 'Address.from_string'))
    elif kind == 'hd':
        for version in ('0488ade4', '0488b21e', '04358394', '043587cf', '00000000', 'ffffffff', '0488ade5'):
            for n in range(60, 90):
                for f in FILL: texts(rep, B.b58cenc(bytes.fromhex(version) + f(n)), ('HDPrivateKey.from_string', 'HDPublicKey.from_string'))
            head = bytes.fromhex(version) + b'\0' * 9 + patterned(32, 2)
            for key in (b'\0' + (0).to_bytes(32, 'big'), b'\0' + (1).to_bytes(32, 'big'), b'\0' + N.to_bytes(32, 'big'), b'\0' + b'\xff' * 32, b'\1' + (1).to_bytes(32, 'big'), pub(1), b'\2' + b'\0' * 32, b'\3' + b'\xff' * 32, b'\4' + b'\1' * 32, b'\5' + b'\1' * 32, b'\2' + (5).to_bytes(32, 'big')):
                texts(rep, B.b58cenc(head + key), ('HDPrivateKey.from_string', 'HDPublicKey.from_string'))
    elif kind == 'like':                      # checked payloads that differ in one field from a valid one
        from ..ref import bip32
        m = bip32.master(patterned(32, 8))
        base = [B.b58cdec(m.text()), B.b58cdec(m.neuter().text()), b'\x80' + patterned(32, 1), b'\xef' + patterned(32, 1) + b'\1', b'\0' + patterned(20, 2)][case[1]]
        which = (('HDPrivateKey.from_string', 'HDPublicKey.from_string'),) * 2 + (('PrivateKey.from_wif',),) * 2 + (('Address.from_string',),)
        for j, p in enumerate(bytelike(base)):
            if j % 4 == case[2]: texts(rep, B.b58cenc(p), which[case[1]])
        if case[1] < 2:
            for k in range(32):                # depth, parent and child number of every size
                for v in (2 ** k, 2 ** (k + 1) - 1):
                    if k % 4 != case[2]: continue
                    for p in (base[:4] + bytes([v % 256]) + base[5:], base[:5] + v.to_bytes(4, 'big') + base[9:], base[:9] + v.to_bytes(4, 'big') + base[13:], base[:4] + b'\5' + v.to_bytes(4, 'big') * 2 + base[13:]):
                        texts(rep, B.b58cenc(p), which[case[1]])
    elif kind == 'short':
        for a in range(case[1], case[2]):
            both(rep, bytes([a]))
            for b in range(256): both(rep, bytes([a, b]))
        if case[1] == 0: both(rep, b'')
    elif kind == 'fill':
        for n in range(case[1], case[2]):
            for f in FILL:
                both(rep, f(n))
                if n: both(rep, b'\2' + f(n - 1), False); both(rep, b'\4' + f(n - 1), False); both(rep, b'\x4e' + f(n - 1), False); both(rep, b'\x6f' + f(n - 1), False)
                texts(rep, f(n).hex(), ('PrivateKey.from_hex', 'PublicKey.from_hex', 'Address.from_hex', 'Input.from_hex', 'Output.from_hex', 'Transaction.from_hex', 'decode_hex'))
    elif kind == 'bytes':
        _, i, part, t = case
        raw = valid_bytes()[i]
        skip = SLOW
        def try_(b):
            for name, row in BYTES.items():
                if name in SLOW and len(b) >= 32: continue
                one(rep, name, row, b)
        if part == 0:
            both(rep, raw)
            for n in range(len(raw)): both(rep, raw[:n])
            for e in (raw + b'\0', raw + raw, b'\0' + raw, raw[1:], raw[::-1]): both(rep, e)
        for j in range(len(raw)):
            if j % 4 != part: continue
            for v in (range(256) if t else (0, 1, 2, 4, 0x4c, 0x4e, 0x80, 0xfd, 0xfe, 0xff)):
                try_(raw[:j] + bytes([v]) + raw[j + 1:])
            try_(raw[:j] + raw[j + 1:]); try_(raw[:j] + b'\xff' + raw[j:])
    elif kind == 'names':                     # every identifier the library's modules know, in several spellings
        import bitforge, builtins
        names = set()
        for m in (opcode_module, script_module, encoding, utils, networks, bitforge, builtins):
            names |= set(dir(m))
        for o in (Opcode, Opcode(0x51), Script, 'x', b'x'): names |= set(dir(o))
        for n in sorted(names):
            for v in (n, n.lower(), n.upper(), 'OP_' + n, n.replace('OP_', ''), n.replace('OP_', 'op_'), n + ' ', '_' + n): texts(rep, v, ('Opcode.from_name', 'Script.from_string'))
        rep.outcome('names', len(names))
    elif kind == 'construct':
        bad_nets = ['nonet', '', 'LIVENET', None, 0, 128, b'livenet', '{', ('livenet',), 'n\xf6pe', '\u2603', '\U0001f600', '\ud800', '{0}', '{key}', '%s', '\0', '\n', 'x' * 5000, b'\xff', 1.5, 2 ** 300, -1, (), frozenset()]
        for n in bad_nets:
            refused(rep, PrivateKey.Error, 'PrivateKey(1, %r)' % (n,), PrivateKey, 1, n); refused(rep, PrivateKey.Error, 'PrivateKey.from_bytes(.., %r)' % (n,), PrivateKey.from_bytes, b'\1' * 32, n)
            refused(rep, PrivateKey.Error, 'PrivateKey.from_hex(.., %r)' % (n,), PrivateKey.from_hex, '01' * 32, n)
            refused(rep, PublicKey.Error, 'PublicKey(.., %r)' % (n,), PublicKey, ec.mul_g(5), n); refused(rep, PublicKey.Error, 'PublicKey.from_bytes(.., %r)' % (n,), PublicKey.from_bytes, pub(5), n)
            refused(rep, PublicKey.Error, 'PublicKey.from_hex(.., %r)' % (n,), PublicKey.from_hex, pub(5).hex(), n)
            refused(rep, Address.Error, 'Address(.., %r)' % (n,), Address, b'\1' * 20, n)
        for s in (0, -1, -N, N, N + 1, 2 ** 256, 2 ** 300): refused(rep, PrivateKey.Error, 'PrivateKey(%d)' % s, PrivateKey, s)
        for t_ in (None, 'pubkeyhash', 0, 'PublicKey', b'', '{x}'): refused(rep, Address.Error, 'Address type %r' % (t_,), Address, b'\1' * 20, networks.livenet, t_)
        for n in list(range(0, 20)) + list(range(21, 45)): refused(rep, Address.Error, 'Address hash of %d bytes' % n, Address, patterned(n))
        x, y = ec.mul_g(5)
        for p in ((0, 0), (x, y + 1), (y, x), (x + ec.P, y), (x, -y), (-1, -1), (ec.P, 1)): refused(rep, PublicKey.Error, 'PublicKey(%r)' % (p,), PublicKey, p)
        refused(rep, BitforgeError, 'Transaction without inputs', Transaction, [], [Output(1, Script())]); refused(rep, BitforgeError, 'Transaction without outputs', Transaction, [Input(TXID.hex(), 0, Script())], [])
        inp, out = Input(TXID.hex(), 0, Script()), Output(1, Script())
        for l in [2 ** k for k in range(32, 71)] + [-2 ** k for k in range(71)]: refused(rep, BitforgeError, 'lock time %d' % l, Transaction, [inp], [out], l)
        for x_ in (None, 1, 'x', out): refused(rep, BitforgeError, 'input %r' % (x_,), Transaction, [x_], [out])
        for x_ in (None, 1, 'x', inp): refused(rep, BitforgeError, 'output %r' % (x_,), Transaction, [inp], [x_])
        for i in [-1, 1, 5, -2] + [s * 2 ** k for k in range(1, 71) for s in (1, -1)]: refused(rep, BitforgeError, 'sign input %d' % i, Transaction([inp], [out]).sign, [PrivateKey(1)], i)
        for n in (81, 82, 255, 256, 1000): refused(rep, BitforgeError, 'DataOutput of %d bytes' % n, DataOutput.create, b'a' * n)
        for o in (0, 0x51, 0x61, 0xff): refused(rep, BitforgeError, 'Instruction(%d, data)' % o, Instruction, Opcode(o), b'a')
        for o, d in ((1, b''), (1, b'ab'), (75, b'a'), (0x4c, b'a' * 256), (0x4d, b'a' * 65536)): refused(rep, BitforgeError, 'Instruction(%d, %d bytes)' % (o, len(d)), Instruction, Opcode(o), d)
        for o in (None, 1, 'OP_1', b'\1'): refused(rep, BitforgeError, 'Instruction(%r)' % (o,), Instruction, o)
        for o in sorted({-1, 256, 1000} | {s * 2 ** k + d for k in range(8, 71) for d in (-1, 0, 1) for s in (1, -1) if not 0 <= s * 2 ** k + d < 256} | {-2 ** k for k in range(8)}): refused(rep, BitforgeError, 'Opcode(%r)' % (o,), Opcode, o)
        for n in [0, 76, 255, -1] + [s * 2 ** k for k in range(8, 71) for s in (1, -1)]: refused(rep, BitforgeError, 'const_push_for(%r)' % n, Opcode.const_push_for, n)
        for n in [2 ** k for k in range(32, 71)] + [-2 ** k for k in range(71)]: refused(rep, BitforgeError, 'push_for(%r)' % n, Opcode.push_for, n)
        for k in ('mainnet', 0, None): refused(rep, BitforgeError, 'networks.find(%r)' % k, networks.find, k)
        for i, n in ((-1, None), (256, 1), (2 ** 64, 8), (-5, 4)): refused(rep, BitforgeError, 'encode_int(%d)' % i, encoding.encode_int, i, True, n)
        for keys in ([], [PrivateKey(1), PrivateKey(2)]):
            inp2 = AddressInput.create(TXID.hex(), 0, Address(b'\1' * 20))
            refused(rep, BitforgeError, 'sign with %d keys' % len(keys), Transaction([inp2], [out]).sign, keys, 0)
        refused(rep, BitforgeError, 'sign an input of no known method', Transaction([inp], [out]).sign, [PrivateKey(1)], 0)

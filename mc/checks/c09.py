"""C09: the transaction wire format."""
import json, os
from ..common import *
from ..ref import tx as T

ID = 'C09'
RULE = ('State: a transaction as plain data (version, inputs, outputs, lock time), or a byte string given to the readers. Every object is '
        'serialized and compared with an independent serializer and transaction ID; every byte string goes through an independent strict '
        'parser, and the implementation must accept the same ones, with the same content, and write them back unchanged.')
BOUNDS = {
    'quick': 'every field at 2^k and 2^k +- 1 for all k, alone and in pairs of extremes; every two of 10 fields, counts and script lengths at 5 to 20 values each; every script length 0..600 and around 2^16, in '
             'inputs and outputs; scripts of 38 lengths up to 10002 with all combinations of first, last and filling operations; all input x output counts in {1,2,3,252..256} and 70 more up to 1025; 8 base transactions: every value of every byte, every '
             'deletion, every insertion of 20 values, every prefix, 40 trailers; all variable-length integer forms at all 4 places',
    'thorough': 'also counts 65535/65536, every byte insertion, every pair of byte deletions, script lengths 0..4000, all transactions of '
                'vectors/tx_valid.json with every byte set to 40 values',
}
TXID = [bytes(range(32)).hex(), '00' * 32, 'ff' * 32, '00' * 31 + '01', '80' + '00' * 31, patterned(32, 9).hex()]


def bounds(nbytes):
    out = {0, 1}
    for k in range(1, 8 * nbytes + 1): out |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    return sorted(v for v in out if v < 2 ** (8 * nbytes))


def filler(n, style=0):
    """A well-formed script of n bytes."""
    if style == 0: return b'\x61' * n
    if n == 0: return b''
    if n <= 76: return bytes([n - 1]) + patterned(n - 1, n) if n > 1 else b'\x00'
    if n <= 257: return b'\x4c' + bytes([n - 2]) + patterned(n - 2, n)
    if n <= 65538: return b'\x4d' + (n - 3).to_bytes(2, 'little') + patterned(n - 3, n)
    return b'\x4e' + (n - 5).to_bytes(4, 'little') + patterned(n - 5, n)


def base_txs():
    p2pkh = b'\x76\xa9\x14' + patterned(20, 1) + b'\x88\xac'
    p2sh = b'\xa9\x14' + patterned(20, 2) + b'\x87'
    ret = b'\x6a\x05hello'
    in1 = T.push(patterned(71, 3)) + T.push(b'\2' + patterned(32, 4))
    in2 = b'\0' + T.push(patterned(72, 5)) + T.push(patterned(71, 6)) + T.push(patterned(105, 7))
    return [
        (1, ((TXID[0], 0, b'', 0xffffffff),), ((0, b''),), 0),
        (2, ((TXID[0], 1, in1, 0xfffffffe),), ((5000000000, p2pkh), (1, p2sh)), 500000),
        (1, (('00' * 32, 0xffffffff, b'\x03\x4e\x01\x05' + b'\x51', 0xffffffff),), ((25 * 10 ** 8, b'\x51'),), 0),
        (0xfffffffe, ((TXID[5], 2, in2, 1), (TXID[3], 256, b'\x51', 0)), ((0, ret),), 0xffffffff),
        (1, ((TXID[0], 3, p2pkh, 7), (TXID[0], 3, p2pkh, 7), (TXID[4], 0x01020304, b'\xfe\xff', 0x05060708)),
            ((0x0102030405060708, p2sh), (0x0102030405060708, p2sh)), 0x090a0b0c),
        (0x01020304, ((TXID[1], 0, filler(253, 1), 0),), ((2 ** 63, filler(254, 1)),), 1),
        (1, ((TXID[2], 2 ** 31, b'\x4c\x00', 5),), ((2 ** 64 - 1, b'\x4d\x02\x00\xab\xcd'), (3, b'\xac'), (2, b'\x00')), 499999999),
        (1, ((TXID[5], 7, b'\x00\x00', 5),), ((21 * 10 ** 14, T.push(patterned(65, 8)) + b'\xac'),), 2 ** 31),
    ]


I32 = (0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1)
LENS = (0, 1, 2, 3, 22, 23, 25, 34, 75, 76, 77, 107, 139, 252, 253, 254, 255, 256, 257, 520)
AXES = (('version', I32), ('lock', I32 + (499999999, 500000000)), ('index', I32), ('seq', I32), ('amount', (0, 1, 255, 546, 65536, 2 ** 31, 2 ** 32, 21 * 10 ** 14, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1)),
        ('in script', LENS), ('out script', LENS), ('inputs', (1, 2, 3, 252, 253)), ('outputs', (1, 2, 3, 252, 253)), ('id', tuple(TXID)))


def make(t):
    version, ins, outs, lock = t
    return Transaction([Input(h, n, Script.from_bytes(s), q) for h, n, s, q in ins],
                       [Output(a, Script.from_bytes(s)) for a, s in outs], lock, version)


def vin(i): return (i.tx_id, i.txo_index, i.script.to_bytes(), i.seq_number)
def vout(o): return (o.amount, o.script.to_bytes())
def view(t): return (t.version, tuple(map(vin, t.inputs)), tuple(map(vout, t.outputs)), t.lock_time)


def good(t, rep, parts=True):
    """The transaction t, built, written and read."""
    rep.state(t)
    want = T.ser(t)
    obj = make(t)
    rep.step(4)
    rep.equal(obj.to_bytes(), want, 'to_bytes of %s' % short(t))
    rep.equal(obj.to_hex(), want.hex(), 'to_hex of %s' % short(t))
    rep.equal(obj.get_id(), T.txid(t), 'get_id of %s' % short(t))
    rep.equal(obj.get_id_bytes(), B.dsha(want), 'get_id_bytes of %s' % short(t))
    back = Transaction.from_bytes(want)
    rep.equal(view(back), t, 'from_bytes of %s' % short(t))
    rep.check(back == obj and not back != obj and hash(back) == hash(obj), 'read back as a different transaction: %s', short(t))
    rep.equal(back.to_bytes(), want, 'written back')
    rep.equal(view(Transaction.from_hex(want.hex())), t, 'from_hex of %s' % short(t))
    if parts:
        for i in obj.inputs[:4]:
            w = T.ser_in(vin(i)); rep.step(3)
            rep.equal((i.to_bytes(), i.to_hex()), (w, w.hex()), 'input %s' % short(vin(i)))
            for x in (Input.from_bytes(w), Input.from_hex(w.hex())):
                rep.check(x == i and hash(x) == hash(i) and vin(x) == vin(i), 'input read back differs: %s', short(vin(i)))
        for o in obj.outputs[:4]:
            w = T.ser_out(vout(o)); rep.step(3)
            rep.equal((o.to_bytes(), o.to_hex()), (w, w.hex()), 'output %s' % short(vout(o)))
            for x in (Output.from_bytes(w), Output.from_hex(w.hex())):
                rep.check(x == o and hash(x) == hash(o) and vout(x) == vout(o), 'output read back differs: %s', short(vout(o)))
    rep.outcome('round trip')


def ref(method, b):
    r = T.Reader(b)
    try:
        if method == 'tx': return T.parse(b)
        v = r.txin() if method == 'in' else r.txout()
        r.done()
        return v
    except T.Bad:
        return None


READ = {'tx': (Transaction.from_bytes, view, 'Transaction'), 'in': (Input.from_bytes, vin, 'Input'), 'out': (Output.from_bytes, vout, 'Output')}


def data(method, b, rep):
    rep.state(method, b)
    f, v, name = READ[method]
    want = ref(method, b)
    got = agree(rep, '%s.from_bytes(%s)' % (name, short(b.hex(), 700)), want, f, (b,), BitforgeError, v)
    if want is not None: rep.equal(got.to_bytes(), b, 'written back')


def cases(tier):
    t = tier == 'thorough'
    for f in ('version', 'lock', 'index', 'seq', 'amount'):
        for part in range(8): yield ('field', f, part)
    yield ('extremes',)
    for part in range(8): yield ('corners', part)
    for i in range(len(AXES)):
        for j in range(i): yield ('pairs', i, j)
    for lo in range(0, 601 if not t else 4001, 20): yield ('script', tuple(range(lo, lo + 20)))
    for n in (1000, 1023, 1024, 4096, 10000, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 65541, 65542, 70000): yield ('script', (n,))
    small = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257)
    for i in small: yield ('counts', i, small if i <= 3 else (1, 2, 252, 253, 255, 256))
    for i in range(11, 301, 1 if t else 4): yield ('counts', i, (1,)); yield ('counts', 2, (i,))
    for i in (511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025): yield ('counts', i, (1,)); yield ('counts', 1, (i,))
    if t:
        for i in (65535, 65536, 65537): yield ('counts', i, (1,)); yield ('counts', 1, (i,))
    for n in (1, 2, 3, 4, 10, 22, 23, 25, 34, 35, 67, 75, 76, 77, 80, 105, 200, 252, 253, 254, 255, 256, 257, 519, 520, 521, 522, 600, 1000, 1023, 1024, 1025): yield ('edges', n, (0, 0x51, 0x61, 0x6a, 0xa9, 0xff), (0, 0x51, 0x61, 0x87, 0xac, 0xae, 0xff), (0, 0x61, 0xff))
    for n in (1650, 3600, 9999, 10000, 10001, 10002): yield ('edges', n, (0x61,), (0, 0x51, 0xac, 0xff), (0, 0x61))
    yield ('ids',)
    yield ('refused',)
    for m in ('tx', 'in', 'out'):
        yield ('varints', m)
    for i in range(len(base_txs())):
        n = len(T.ser(base_txs()[i]))
        for lo in range(0, n, 16): yield ('bytes', i, lo, min(n, lo + 16), None)
        for lo in range(0, n + 1, 32): yield ('insert', i, lo, min(n + 1, lo + 32), t)
        yield ('prefixes', i)
        if t:
            for lo in range(0, n, 16): yield ('delete2', i, lo, min(n, lo + 16))
    yield ('parts',)
    if t:
        for i in range(len(vectors())):
            n = len(vectors()[i])
            for lo in range(0, min(n, 2000), 100): yield ('vector', i, lo, min(n, lo + 100))
    else:
        yield ('vectors',)


@functools.lru_cache(None)
def vectors():
    with open(os.path.join(core.VERIF, 'vectors', 'tx_valid.json')) as f:
        return sorted({bytes.fromhex(row[1]) for row in json.load(f) if len(row) > 1}, key=lambda b: (len(b), b))


def varint_forms():
    for v in (0, 1, 2, 3, 75, 252, 253, 254, 255, 256, 0xfffe, 0xffff, 0x10000, 0x10001, 0xffffffff, 0x100000000, 2 ** 63, 2 ** 64 - 1):
        for marker, w in ((None, 1), (0xfd, 2), (0xfe, 4), (0xff, 8)):
            if marker is None:
                if v < 0xfd: yield v, bytes([v])
            elif v < 256 ** w:
                yield v, bytes([marker]) + v.to_bytes(w, 'little')


def run(case, rep):
    kind = case[0]
    base = base_txs()[1]
    if kind == 'field':
        f = case[1]
        for i, v in enumerate(bounds(8 if f == 'amount' else 4)):
            if i % 8 != case[2]: continue
            version, ins, outs, lock = base
            (h, n, s, q), (a, o) = ins[0], outs[0]
            if f == 'version': version = v
            elif f == 'lock': lock = v
            elif f == 'index': n = v
            elif f == 'seq': q = v
            else: a = v
            good((version, ((h, n, s, q),), ((a, o),) + outs[1:], lock), rep)
        rep.sample('field %s at its bounds' % f)
    elif kind == 'extremes':
        E = (0, 1, 2 ** 32 - 1)
        for version, lock, n, q, a in itertools.product(E, E, E, E, (0, 1, 2 ** 64 - 1)):
            good((version, ((TXID[0], n, b'\x51', q),), ((a, b'\x52'),), lock), rep)
    elif kind == 'corners':     # the extreme values of all fields of an input, an output and their transaction together
        ins = list(itertools.product(('00' * 32, 'ff' * 32, '01' + '00' * 31, patterned(32, 3).hex()), (0, 1, 2 ** 31, 2 ** 32 - 1), (b'', b'\x51', b'\x61' * 253), (0, 1, 2 ** 32 - 2, 2 ** 32 - 1)))
        outs = list(itertools.product((0, 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1), (b'', b'\x51', b'\x6a\x01a', b'\x61' * 253)))
        heads = list(itertools.product((0, 1, 2, 2 ** 31, 2 ** 32 - 1), (0, 1, 499999999, 500000000, 2 ** 32 - 1)))
        for k, i in enumerate(ins):
            if k % 8 != case[1]: continue
            for j in range(3):
                o, h = outs[(k * 7 + j * 11) % len(outs)], heads[(k * 3 + j * 7) % len(heads)]
                good((h[0], (i,) if j else (i, ins[k * 5 % len(ins)]), (o,), h[1]), rep)
        for k, (o, h) in enumerate(itertools.product(outs, heads)):
            if k % 8 == case[1]: good((h[0], (ins[k * 5 % len(ins)],), (o,), h[1]), rep)
    elif kind == 'pairs':       # every two fields together
        (f, fv), (g, gv) = AXES[case[1]], AXES[case[2]]
        for v in fv:
            for w in gv:
                x = {'version': 1, 'lock': 0, 'index': 1, 'seq': 0xffffffff, 'amount': 5000, 'in script': 1, 'out script': 1, 'inputs': 1, 'outputs': 1, 'id': TXID[0], f: v, g: w}
                ins = tuple((x['id'], x['index'], filler(x['in script'], 1), x['seq']) for i in range(x['inputs']))
                outs = tuple((x['amount'], filler(x['out script'], 1)) for i in range(x['outputs']))
                good((x['version'], ins, outs, x['lock']), rep, x['inputs'] < 3)
        rep.sample('%s with %s' % (f, g))
    elif kind == 'script':
        for n in case[1]:
            for style in ((0, 1) if n < 2000 or n in (65535, 65536) else (1,)):
                s = filler(n, style)
                good((1, ((TXID[0], 1, s, 2),), ((3, b'\x51'),), 4), rep)
                good((1, ((TXID[0], 1, b'\x51', 2),), ((3, s),), 4), rep)
        rep.sample('scripts of %d..%d bytes' % (case[1][0], case[1][-1]))
    elif kind == 'edges':
        n = case[1]
        for h, t, f in itertools.product(*case[2:]):
            s = (bytes([h]) + bytes([f]) * (n - 2) + bytes([t]))[-n:]
            data('in', T.ser_in((TXID[0], 1, s, 2)), rep); data('out', T.ser_out((3, s)), rep)
            if n <= 600: good((1, ((TXID[0], 1, s, 2),), ((3, s),), 4), rep, False)
        rep.sample('scripts of %d bytes with every edge' % n)
    elif kind == 'counts':
        for j in case[2]:
            ins = tuple((TXID[k % 6], k, b'\x51' * (k % 3), k * 7 % 2 ** 32) for k in range(case[1]))
            outs = tuple((k * 1000003, b'\x52' * (k % 4)) for k in range(j))
            good((1, ins, outs, 9), rep)
        rep.sample('%d inputs, %s outputs' % (case[1], case[2]))
    elif kind == 'ids':
        for i in range(32):
            for v in (1, 0x80, 0xff):
                b = bytearray(32); b[i] = v
                good((1, ((b.hex(), 0, b'', 0),), ((0, b''),), 0), rep)
        for t in base_txs(): good(t, rep)
    elif kind == 'refused':
        ok = base
        make(ok).to_bytes()
        def attempt(t): return make(t).to_bytes()
        def attempt_id(t): return make(t).get_id()
        version, ins, outs, lock = ok
        (h, n, s, q), (a, o) = ins[0], outs[0]
        bad = []
        for v in (-1, -2, -2 ** 31, -2 ** 32, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 40, 2 ** 64, 2 ** 256):
            bad += [(v, ins, outs, lock), (version, ins, outs, v), (version, ((h, v, s, q),), outs, lock), (version, ((h, n, s, v),), outs, lock),
                    (version, ((h, 0, b'', 0), (h, v, s, q)), outs, lock)]
        for v in (-1, -2 ** 63, -2 ** 64, 2 ** 64, 2 ** 64 + 1, 2 ** 65, 2 ** 72, 2 ** 128):
            bad += [(version, ins, ((v, o),), lock), (version, ins, ((1, b''), (v, o)), lock)]
        for v in ('', '00', '00' * 31, '00' * 33, '00' * 64, '0' * 63, '0' * 65, 'zz' * 32, '0x' + '00' * 31, '00' * 31 + '0g', ' ' + '00' * 31 + '0'):
            bad += [(version, ((v, n, s, q),), outs, lock)]
        bad += [(version, (), outs, lock), (version, ins, (), lock), (version, (), (), lock)]
        for t in bad:
            rep.state('bad', t)
            refused(rep, BitforgeError, 'transaction %s' % short(t), attempt, t)
            refused(rep, BitforgeError, 'ID of %s' % short(t), attempt_id, t)
            rep.outcome('refused')
        for junk in (None, 1, 'input', make(ok).outputs[0], (h, n, s, q)):
            refused(rep, BitforgeError, 'Transaction with input %s' % short(junk), Transaction, [junk], make(ok).outputs)
            refused(rep, BitforgeError, 'Transaction with input %s' % short(junk), Transaction, list(make(ok).inputs) + [junk], make(ok).outputs)
        for junk in (None, 1, 'output', make(ok).inputs[0], (a, o)):
            refused(rep, BitforgeError, 'Transaction with output %s' % short(junk), Transaction, make(ok).inputs, [junk])
            refused(rep, BitforgeError, 'Transaction with output %s' % short(junk), Transaction, make(ok).inputs, list(make(ok).outputs) + [junk])
        for text in ('', '0', 'zz', 'é', '0' * 119, T.ser(ok).hex()[:-1], T.ser(ok).hex() + '0', T.ser(ok).hex() + 'g', ' ' + T.ser(ok).hex(), '0x' + T.ser(ok).hex()):
            for cls in (Transaction, Input, Output): refused(rep, BitforgeError, '%s.from_hex(%s)' % (cls.__name__, ascii(text[:40])), cls.from_hex, text)
        for cls, raw in ((Transaction, T.ser(ok)), (Input, T.ser_in(ok[1][0])), (Output, T.ser_out(ok[2][0]))):
            for text in decorated(raw.hex()):
                rep.state(cls.__name__, text)
                if text.lower() == raw.hex() and text.isascii(): rep.equal(bytes(cls.from_hex(text).to_bytes()), raw, '%s.from_hex(%s)' % (cls.__name__, short(text)))
                elif len(text) % 2 or not all(c in '0123456789abcdefABCDEF' for c in text): refused(rep, BitforgeError, '%s.from_hex(%s)' % (cls.__name__, ascii(text[:60])), cls.from_hex, text)
    elif kind == 'varints':
        head = (1).to_bytes(4, 'little')
        prev = bytes.fromhex(TXID[0]) + b'\1\0\0\0'
        tail = b'\4\3\2\1'
        for v, form in varint_forms():
            for have in sorted({0, 1, 2, 3, min(v, 70000), max(0, min(v, 70000) - 1), min(v, 70000) + 1}):
                s = filler(have, 1)
                if case[1] == 'in': data('in', prev + form + s + tail, rep)
                elif case[1] == 'out': data('out', (7).to_bytes(8, 'little') + form + s, rep)
                else:
                    i1, o1 = prev + b'\x01\x51' + tail, (7).to_bytes(8, 'little') + b'\x01\x52'
                    have = min(have, 300)
                    data('tx', head + form + i1 * have + b'\x01' + o1 + tail, rep)
                    data('tx', head + b'\x01' + i1 + form + o1 * have + tail, rep)
                    data('tx', head + b'\x01' + prev + form + s + tail + b'\x01' + o1 + tail, rep)
                    data('tx', head + b'\x01' + i1 + b'\x01' + (7).to_bytes(8, 'little') + form + s + tail, rep)
        rep.sample('all forms of 18 integers at every length and count of %s' % case[1])
    elif kind == 'bytes':
        raw = T.ser(base_txs()[case[1]])
        for i in range(case[2], case[3]):
            for v in range(256):
                if v != raw[i]: data('tx', raw[:i] + bytes([v]) + raw[i + 1:], rep)
            data('tx', raw[:i] + raw[i + 1:], rep)
    elif kind == 'insert':
        raw = T.ser(base_txs()[case[1]])
        for i in range(case[2], case[3]):
            for v in (range(256) if case[4] else (0, 1, 2, 3, 0x14, 0x4b, 0x4c, 0x4d, 0x4e, 0x51, 0x61, 0x7f, 0x80, 0xac, 0xfc, 0xfd, 0xfe, 0xff, raw[i - 1], raw[i] if i < len(raw) else 0)):
                data('tx', raw[:i] + bytes([v]) + raw[i:], rep)
    elif kind == 'prefixes':
        raw = T.ser(base_txs()[case[1]])
        for i in range(len(raw)): data('tx', raw[:i], rep)
        for i in range(1, 12):
            for v in (0, 1, 0xff, 0x61): data('tx', raw + bytes([v]) * i, rep)
        data('tx', raw + raw, rep)
        data('tx', raw, rep)
        for i in range(1, len(raw)): data('tx', raw[i:], rep)
    elif kind == 'delete2':
        raw = T.ser(base_txs()[case[1]])
        for i in range(case[2], case[3]):
            for j in range(i + 1, len(raw)): data('tx', raw[:i] + raw[i + 1:j] + raw[j + 1:], rep)
    elif kind == 'parts':
        for t in base_txs()[:5]:
            for method, raw in [('in', T.ser_in(i)) for i in t[1]] + [('out', T.ser_out(o)) for o in t[2]]:
                for i in range(len(raw)): data(method, raw[:i], rep); data(method, raw[:i] + raw[i + 1:], rep)
                for i in range(1, 6): data(method, raw + b'\0' * i, rep); data(method, raw + b'\xff' * i, rep)
                data(method, raw, rep)
                data(method, raw + raw, rep)
                for i in range(len(raw)):
                    for v in (0, 1, 2, 0x4c, 0x4d, 0x4e, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff): data(method, raw[:i] + bytes([v]) + raw[i + 1:], rep)
    elif kind == 'vectors':
        for raw in vectors(): data('tx', raw, rep); data('tx', raw[:-1], rep); data('tx', raw + b'\0', rep)
        rep.sample('%d published transactions' % len(vectors()))
    elif kind == 'vector':
        raw = vectors()[case[1]]
        for i in range(case[2], case[3]):
            for v in (0, 1, 2, 3, 4, 5, 8, 16, 20, 33, 64, 0x47, 0x48, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x60, 0x61, 0x63, 0x6a, 0x76, 0x7f, 0x80, 0x87, 0x88, 0xa9, 0xac, 0xae, 0xb1, 0xc0, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, raw[i] ^ 1, raw[i] ^ 0x80):
                data('tx', raw[:i] + bytes([v]) + raw[i + 1:], rep)

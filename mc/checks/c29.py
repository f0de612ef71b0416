"""C29: the low-level helpers for WIF texts, addresses and SEC encodings."""
from ..common import *

ID = 'C29'
RULE = ('State: (helper, value) or (helper, text). Writers are compared with independently built forms; readers must give back exactly what an independent strict reader '
        'gives for the same text and prefixes, or raise the encoding error; the validity questions must be true exactly for the texts the reader accepts, and never raise.')
BOUNDS = {
    'quick': '60 secrets x 2 compressions x 4 prefixes; all 256 prefixes x payload lengths 0..40 x 4 endings of WIF texts and x lengths 0..25 of addresses; every single edit of 4 texts; '
             '256 secrets of every bit length; 700 payloads of each kind with every first and last byte; 47 hashes x 5 prefixes; 60 points x 2 compressions x 3 prefixes; 11 sets of allowed prefixes; points with x or y = 0..399, also plus the field prime; all byte strings of length <= 2 and 3 fillings of 0..70 bytes x 8 first bytes as SEC; 545 pairs that miss the curve',
    'thorough': 'quick + 1000 secrets and points, pairs of substitutions at 6 positions of a WIF text and an address',
}
U = utils.encoding
P1 = [b'\x80']
PREFIXES = [b'\x80', b'\xef', b'\x00', b'\xff']
ALLOWED = [[b'\x80'], [b'\xef'], [b'\x80', b'\xef'], [b'\xef', b'\x80'], [], [b'\0'], [b'\x80', b'\0'], [bytes([i]) for i in range(256)], [b'\x81', b'\x7f'], (b'\x80',), {b'\xef', b'\x81'}]
SECRETS = [1, 2, 3, 255, 256, N - 1, N - 2, N // 2, 2 ** 255, 2 ** 248, 2 ** 248 - 1] + [2 ** (8 * i) + i for i in range(1, 31)] + [int.from_bytes(patterned(32, i), 'big') % N for i in range(19)]
HASHES = [b'\0' * z + patterned(20 - z, z) for z in range(0, 21)] + [patterned(20 - z, 50 + z) + b'\0' * z for z in range(1, 21)] + [b'\xff' * 20, b'\1' * 20, b'\0' * 19 + b'\1', b'\1' + b'\0' * 19, b'\x80' * 20, b'\x6f' * 20]


WIDE = [b'', b'\0\0', b'\0\1', b'\1\0', b'\x13\xce', b'\x1c\xb8', b'\xff\xff', b'\x80\x80', b'\0\0\0', b'abc', b'\x04\x88\xad\xe4', b'\0' * 8]


def wif(text):
    """(prefix, secret, compressed) or None"""
    raw = B.b58cdec(text)
    if raw is None: return None
    if len(raw) == 33: return raw[:1], int.from_bytes(raw[1:], 'big'), False
    if len(raw) == 34 and raw[33] == 1: return raw[:1], int.from_bytes(raw[1:33], 'big'), True
    return None


def addr(text):
    raw = B.b58cdec(text)
    return (raw[1:], raw[:1]) if raw is not None and len(raw) == 21 and raw[:1] in (b'\0', b'\x6f') else None


def bools(rep, what, want, f, *args, **kw):
    rep.step(); rep.traces += 1
    k, v = call(f, *args, **kw)
    if k == 'err': rep.fail('%s raised %s: %s' % (what, type(v).__name__, str_of(v)))
    if bool(v) != want or not isinstance(v, bool): rep.fail('%s is %r, expected %s' % (what, v, want))
    rep.outcome('valid' if want else 'invalid')


def wif_text(t, rep, allowed=ALLOWED[:3]):
    rep.state('wif', t)
    want = wif(t)
    agree(rep, 'wif_to_tuple_of_prefix_secret_exponent_compressed(%s)' % ascii(t), want, U.wif_to_tuple_of_prefix_secret_exponent_compressed, (t,), U.EncodingError)
    for al in allowed:
        ok = want is not None and want[0] in al
        agree(rep, 'wif_to_tuple_of_secret_exponent_compressed(%s, %s)' % (ascii(t), short(al)), want[1:] if ok else None, U.wif_to_tuple_of_secret_exponent_compressed, (t, al), U.EncodingError)
        agree(rep, 'wif_to_secret_exponent(%s, %s)' % (ascii(t), short(al)), want[1] if ok else None, U.wif_to_secret_exponent, (t, al), U.EncodingError)
        bools(rep, 'is_valid_wif(%s, %s)' % (ascii(t), short(al)), ok, U.is_valid_wif, t, al)
    ok = want is not None and want[0] == b'\x80'
    agree(rep, 'wif_to_secret_exponent(%s)' % ascii(t), want[1] if ok else None, U.wif_to_secret_exponent, (t,), U.EncodingError)
    bools(rep, 'is_valid_wif(%s)' % ascii(t), ok, U.is_valid_wif, t)


def addr_text(t, rep):
    rep.state('addr', t)
    want = addr(t)
    agree(rep, 'bitcoin_address_to_hash160_sec_with_prefix(%s)' % ascii(t), want, U.bitcoin_address_to_hash160_sec_with_prefix, (t,), U.EncodingError)
    for p in (b'\0', b'\x6f', b'\5'):
        agree(rep, 'bitcoin_address_to_hash160_sec(%s, %r)' % (ascii(t), p), want[0] if want and want[1] == p else None, U.bitcoin_address_to_hash160_sec, (t, p), U.EncodingError)
    agree(rep, 'bitcoin_address_to_hash160_sec(%s)' % ascii(t), want[0] if want and want[1] == b'\0' else None, U.bitcoin_address_to_hash160_sec, (t,), U.EncodingError)
    for al in (b'\0', b'\x6f', b'\0\x6f', [b'\0', b'\x6f'], [b'\x6f'], b'\5', b'', []):
        bools(rep, 'is_valid_bitcoin_address(%s, %r)' % (ascii(t), al), want is not None and want[1] in al, U.is_valid_bitcoin_address, t, al)
    bools(rep, 'is_valid_bitcoin_address(%s)' % ascii(t), want is not None and want[1] == b'\0', U.is_valid_bitcoin_address, t)


def sec(raw, rep):
    rep.state('sec', raw)
    pt = ec.sec_parse(raw)
    rep.step(); rep.traces += 1
    bools(rep, 'is_sec_compressed(%s)' % raw.hex(), raw[:1] in (b'\2', b'\3'), U.is_sec_compressed, raw)
    k, v = call(U.sec_to_public_pair, raw)
    if pt is None:
        if k == 'ok': rep.fail('sec_to_public_pair(%s) gives %s' % (raw.hex(), v))
        if not isinstance(v, (U.EncodingError, ValueError)): rep.fail('sec_to_public_pair(%s) escaped with %s' % (raw.hex(), type(v)))
    elif k == 'err' or tuple(v) != tuple(pt[0]): rep.fail('sec_to_public_pair(%s) gives %s' % (raw.hex(), v))
    rep.outcome('point' if pt else 'no point')


def cases(tier):
    t = tier == 'thorough'
    for i in range(len(SECRETS)): yield ('secret', SECRETS[i])
    for v in range(256): yield ('wif prefix', v); yield ('address prefix', v)
    for i in range(len(HASHES)): yield ('hash', i)
    for i in range(4):
        for part in range(4): yield ('edits', i, part)
    for i in range(len(SECRETS)): yield ('point', SECRETS[i])
    for a in range(0, 256, 16): yield ('sec', a)
    for n in range(0, 71, 5): yield ('fill', n)
    for lo in range(0, 400, 20): yield ('coordinates', lo)
    yield ('numbers',)
    yield ('short',)
    for i in range(0, len(ec.GAPS), 40): yield ('near', i)
    for v in (bitints(256, 1, N - 1) if t else [2 ** k + k for k in range(256)]): yield ('secret', v)
    for v in (bitints(256, 1, N - 1) if t else [2 ** k + k for k in range(0, 256, 2)]): yield ('point', v)
    for i in range(8): yield ('like', i)
    if t:
        for k in range(1000): yield ('secret', 5000 + k); yield ('point', 5000 + k)
        for which in (0, 2):
            for i in range(0, 34, 6): yield ('pairs', which, i)


def edit_text(i):
    return [B.b58cenc(b'\x80' + patterned(32, 1)), B.b58cenc(b'\x80' + patterned(32, 1) + b'\1'), B.b58cenc(b'\0' + patterned(20, 2)), B.b58cenc(b'\x6f' + b'\0' * 3 + patterned(17, 2))][i]


def run(case, rep):
    kind = case[0]
    if kind == 'secret':
        s = case[1]
        raw = s.to_bytes(32, 'big')
        rep.equal(U.to_bytes_32(s), raw, 'to_bytes_32(%d)' % s)
        rep.equal(U.from_bytes_32(raw), s, 'from_bytes_32(%s)' % raw.hex())
        for p in PREFIXES:
            for c in (True, False):
                want = B.b58cenc(p + raw + (b'\1' if c else b''))
                rep.step()
                rep.equal(U.secret_exponent_to_wif(s, c, p), want, 'secret_exponent_to_wif(%d, %s, %r)' % (s, c, p))
                wif_text(want, rep, ALLOWED)
        rep.equal(U.secret_exponent_to_wif(s), B.b58cenc(b'\x80' + raw + b'\1'), 'secret_exponent_to_wif(%d)' % s)
        rep.equal(U.secret_exponent_to_wif(s, compressed=False), B.b58cenc(b'\x80' + raw), 'secret_exponent_to_wif(%d), uncompressed' % s)
        rep.sample('secret %d' % s)
        for p in WIDE:                        # prefixes of any length
            for c in (True, False): rep.equal(U.secret_exponent_to_wif(s, c, p), B.b58cenc(p + raw + (b'\1' if c else b'')), 'secret_exponent_to_wif(%d, %s, %r)' % (s, c, p))
    elif kind == 'wif prefix':
        for n in range(0, 41):
            for end in (b'', b'\0', b'\1', b'\2', b'\xff'):
                if n < 30 and end not in (b'', b'\1'): continue
                wif_text(B.b58cenc(bytes([case[1]]) + patterned(n, n) + end), rep, ALLOWED[:1] + [[bytes([case[1]])]])
    elif kind == 'address prefix':
        for n in range(0, 26):
            for f in (patterned(n, n), b'\0' * n): addr_text(B.b58cenc(bytes([case[1]]) + f), rep)
    elif kind == 'hash':
        h = HASHES[case[1]]
        for p in (b'\0', b'\x6f', b'\5', b'\xc4', b'\x30'):
            want = B.b58cenc(p + h)
            rep.step()
            rep.equal(U.hash160_sec_to_bitcoin_address(h, p), want, 'hash160_sec_to_bitcoin_address(%s, %r)' % (h.hex(), p))
            addr_text(want, rep)
        rep.equal(U.hash160_sec_to_bitcoin_address(h), B.b58cenc(b'\0' + h), 'hash160_sec_to_bitcoin_address(%s)' % h.hex())
        for p in WIDE: rep.equal(U.hash160_sec_to_bitcoin_address(h, p), B.b58cenc(p + h), 'hash160_sec_to_bitcoin_address(%s, %r)' % (h.hex(), p))
        for data in (h, h + h, b''):
            rep.equal((U.hash160(data), U.double_sha256(data)), (B.hash160(data), B.dsha(data)), 'hashes of %s' % data.hex())
    elif kind == 'edits':
        text = edit_text(case[1])
        check = wif_text if case[1] < 2 else addr_text
        if case[2] == 0:
            check(text, rep)
            for e in (text.lower(), text.upper(), text[::-1], text + text, ' ' + text, text + ' ', text + '\n', '1' + text, text[:-1], text[1:], '', '1', '1111', '11111'): check(e, rep)
        for i, t in enumerate(itertools.chain(edits(text, list(B.ALPHABET) + ['0', 'l', ' ', '\u00e9']), decorated(text))):
            if i % 4 == case[2]: check(t, rep)
    elif kind == 'point':
        pt = ec.mul_g(case[1])
        for c in (True, False):
            raw = pub(case[1], c)
            rep.step(2)
            rep.equal(U.public_pair_to_sec(pt, c), raw, 'public_pair_to_sec of %d' % case[1])
            rep.equal(U.public_pair_to_hash160_sec(pt, c), B.hash160(raw), 'public_pair_to_hash160_sec of %d' % case[1])
            for p in [b'\0', b'\x6f', b'\x05'] + WIDE: rep.equal(U.public_pair_to_bitcoin_address(pt, c, p), B.b58cenc(p + B.hash160(raw)), 'public_pair_to_bitcoin_address of %d' % case[1])
            sec(raw, rep)
        rep.equal(U.public_pair_to_bitcoin_address(pt), B.b58cenc(b'\0' + B.hash160(pub(case[1]))), 'public_pair_to_bitcoin_address of %d' % case[1])
        rep.equal((U.public_pair_to_sec(pt), U.public_pair_to_hash160_sec(pt)), (pub(case[1]), B.hash160(pub(case[1]))), 'defaults')
    elif kind == 'sec':
        for a in range(case[1], case[1] + 16):
            sec(bytes([a]), rep)
            for b in range(256): sec(bytes([a, b]), rep)
        if case[1] == 0: sec(b'', rep)
    elif kind == 'fill':
        for n in range(case[1], case[1] + 5):
            for first in (0, 1, 2, 3, 4, 5, 6, 7):
                for f in (b'\0' * n, b'\xff' * n, patterned(n, n), b'\1' * n): sec(bytes([first]) + f, rep)
    elif kind == 'coordinates':
        Q = ec.P
        for c in range(case[1], case[1] + 20):
            y = ec.lift(c)
            if y is not None:
                for xx in (c, c + Q):
                    for p in (b'\2', b'\3'): sec(p + xx.to_bytes(32, 'big'), rep)
                    for yy in (y, Q - y, y + 1): sec(b'\4' + xx.to_bytes(32, 'big') + yy.to_bytes(32, 'big'), rep)
            for x in ec.lifts_y(c):
                for yy in (c, c + Q, Q - c, c + 1): sec(b'\4' + x.to_bytes(32, 'big') + (yy % 2 ** 256).to_bytes(32, 'big'), rep)
            for p in (b'\2', b'\3'):
                sec(p + (Q - 1 - c).to_bytes(32, 'big'), rep); sec(p + (2 ** 256 - 1 - c).to_bytes(32, 'big'), rep)
    elif kind == 'near':                      # pairs that miss the curve by little
        for d in ec.GAPS[case[1]:case[1] + 40]:
            x, y = ec.near(d)
            sec(b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big'), rep); sec(b'\4' + x.to_bytes(32, 'big') + (ec.P - y).to_bytes(32, 'big'), rep)
    elif kind == 'short':                     # both coordinates have leading zeros
        for x, y in ec.short_points():
            for yy in (y, ec.P - y):
                for comp in (True, False):
                    raw = ec.sec((x, yy), comp)
                    rep.equal((bytes(U.public_pair_to_sec((x, yy), comp)), U.public_pair_to_hash160_sec((x, yy), comp), U.public_pair_to_bitcoin_address((x, yy), comp)),
                              (raw, B.hash160(raw), B.b58cenc(b'\0' + B.hash160(raw))), 'the point %r' % ((x, yy),))
                    sec(raw, rep)
    elif kind == 'numbers':
        for n in [0, 1] + [2 ** k + d for k in range(1, 256) for d in (-1, 0, 1)] + [2 ** 256 - 1]:
            if n >= 2 ** 256: continue
            rep.state('number', n); rep.step()
            rep.equal((U.to_bytes_32(n), U.from_bytes_32(n.to_bytes(32, 'big'))), (n.to_bytes(32, 'big'), n), 'number %d' % n)
        for n in (2 ** 256, 2 ** 256 + 1, 2 ** 300, -1): refused(rep, Exception, 'to_bytes_32(%d)' % n, U.to_bytes_32, n)
        rep.outcome('numbers')
    elif kind == 'like':                      # payloads with every first and last byte
        for j, h in enumerate(bytelike(patterned(20, 2))):
            if j % 8 != case[1]: continue
            for p in (b'\0', b'\x6f'):
                rep.equal(U.hash160_sec_to_bitcoin_address(h, p), B.b58cenc(p + h), 'hash160_sec_to_bitcoin_address(%s, %r)' % (h.hex(), p))
                addr_text(B.b58cenc(p + h), rep)
        for j, h in enumerate(bytelike(patterned(32, 2))):
            if j % 8 == case[1]:
                for end in (b'', b'\1'): wif_text(B.b58cenc(b'\x80' + h + end), rep, ALLOWED[:1])
        for j, raw in enumerate(bytelike(pub(77))):
            if j % 8 == case[1]: sec(raw, rep)
        for j, raw in enumerate(bytelike(pub(77, False))):
            if j % 8 == case[1]: sec(raw, rep)
    elif kind == 'pairs':
        text = edit_text(case[1])
        check = wif_text if case[1] < 2 else addr_text
        i = case[2]
        for j in range(i + 1, len(text), 3):
            for c in B.ALPHABET:
                for d in B.ALPHABET: check(text[:i] + c + text[i + 1:j] + d + text[j + 1:], rep)

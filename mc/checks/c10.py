"""C10: integers and byte buffers."""
from ..common import *
from ..ref import tx as T

ID = 'C10'
RULE = ('State: an integer with a width and byte order, or a buffer content after a sequence of operations. Integer functions are compared '
        'with an independent encoder; buffers are driven through every sequence of reads and writes and compared with a model (a byte '
        'string) after every step: result, refusal and remaining content.')
BOUNDS = {
    'quick': 'integers 0..70000 and 2^k, 2^k +- 1, 255*2^k for k <= 264, widths none and 0..33, integers of 64..300 bytes and around 512..4096 bytes, both byte orders, bytes and bytearray; all '
             'byte strings of length <= 2 and patterned ones up to 64 for the decoders; all buffer operation sequences of length <= 4 (12 '
             'operations) from 4 initial contents; all 256 first bytes x lengths 0..10 for variable-length integers',
    'thorough': 'integers 0..2^20; all operation sequences of length <= 5; widths 0..64',
}
ANY = Exception
LENGTHS = sorted(set(range(65, 300, 3)) | {v + d for v in (64, 128, 256, 512, 520, 1024, 2048, 4096) for d in (-1, 0, 1)})


def specials():
    out = set(range(0, 300))
    for k in range(0, 265): out |= {2 ** k - 1, 2 ** k, 2 ** k + 1, 255 << k, 0x0102030405060708090a >> (k % 80)}
    for k in range(0, 60): out.add(10 ** k)
    return sorted(out)


def cases(tier):
    top = 70000 if tier == 'quick' else 2 ** 20
    for lo in range(0, top, 2500): yield ('small', lo, min(lo + 2500, top))
    sp = specials()
    for i in range(0, len(sp), 40): yield ('width', i, i + 40, 33 if tier == 'quick' else 64)
    yield ('negative',)
    for lo in range(0, 256, 16): yield ('decode', lo)
    for n in list(range(0, 65)) + LENGTHS: yield ('decode_long', n)
    for i in range(0, len(LENGTHS), 4): yield ('wide', LENGTHS[i:i + 4])
    for b in range(0, 256, 16): yield ('varint', b)
    for i in range(len(INITIAL)):
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                yield ('buffer', i, (a, b), 4 if tier == 'quick' else 5)
    yield ('alias',)


INITIAL = [b'', b'\x05', b'\xfd\xfd\x00\x01\x02\x03', bytes(range(250, 256)) + bytes(range(10))]
OPS = [('w', b''), ('w', b'\x00'), ('w', b'\xfd\xff'), ('w', b'abc'), ('r', 0), ('r', 1), ('r', 2), ('r', 3), ('r', 'all'), ('r', 'more'), ('v',), ('r', 1000000)]


def minimal(n): return n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')


def integer(n, widths, rep):
    rep.state('int', n)
    enc = encoding.encode_int
    rep.step(4)
    rep.equal(enc(n), minimal(n), 'encode_int(%d)' % n)
    rep.equal(enc(n, big_endian=False), minimal(n)[::-1], 'encode_int(%d, little)' % n)
    rep.equal(enc(n, True), minimal(n), 'encode_int(%d, True)' % n)
    rep.equal(encoding.decode_int(minimal(n)), n, 'decode_int of %d' % n)
    rep.equal(encoding.decode_int(minimal(n)[::-1], big_endian=False), n, 'decode_int of %d, little' % n)
    rep.equal(encoding.decode_int(bytearray(minimal(n))[::-1], False), n, 'decode_int of %d, little, bytearray' % n)
    ib = utils.intbytes
    want = b'' if n == 0 else minimal(n)
    rep.equal(ib.int_to_bytes(n), want, 'int_to_bytes(%d)' % n)
    rep.equal(ib.int_from_bytes(want), n, 'int_from_bytes of %d' % n)
    for w in widths:
        fits = n < 256 ** w
        for big in (True, False):
            rep.step()
            if fits:
                b = n.to_bytes(w, 'big' if big else 'little')
                rep.equal(enc(n, big_endian=big, length=w), b, 'encode_int(%d, %s, %d)' % (n, big, w))
                rep.check(type(enc(n, big_endian=big, length=w)) is bytes, 'encode_int gives no bytes')
                rep.equal(encoding.decode_int(b, big_endian=big), n, 'decode_int(%s, %s)' % (b.hex(), big))
                rep.equal(ib.to_bytes(n, w, 'big' if big else 'little'), b, 'intbytes.to_bytes(%d, %d, %s)' % (n, w, big))
                rep.equal(ib.from_bytes(b, 'big' if big else 'little'), n, 'intbytes.from_bytes(%s, %s)' % (b.hex(), big))
                if big: rep.equal(ib.to_bytes(n, w), b, 'intbytes.to_bytes(%d, %d)' % (n, w)); rep.equal(ib.from_bytes(b), n, 'from_bytes(%s)' % b.hex())
            else:
                refused(rep, ANY, 'encode_int(%d, %s, %d)' % (n, big, w), enc, n, big_endian=big, length=w)
                refused(rep, ANY, 'intbytes.to_bytes(%d, %d, %s)' % (n, w, big), ib.to_bytes, n, w, 'big' if big else 'little')
        rep.outcome('fits' if fits else 'refused')
    if n < 256 ** 32:
        rep.equal(utils.encoding.to_bytes_32(n), n.to_bytes(32, 'big'), 'to_bytes_32(%d)' % n)
        rep.equal(utils.encoding.from_bytes_32(n.to_bytes(32, 'big')), n, 'from_bytes_32 of %d' % n)
    if n < 2 ** 64:
        rep.equal(encoding.encode_varint(n), B.varint(n), 'encode_varint(%d)' % n)
        b = Buffer(B.varint(n) + b'\xfd\0')
        rep.equal(b.read_varint(), n, 'read_varint of %d' % n)
        rep.equal(bytes(b), b'\xfd\0', 'left by read_varint of %d' % n)
    else:
        refused(rep, ANY, 'encode_varint(%d)' % n, encoding.encode_varint, n)


def apply(buf, op, model, rep, path):
    """One operation on both; returns the model afterwards, or None when the sequence ends here."""
    rep.step()
    what = 'after %s' % (path,)
    if op[0] == 'w':
        for_real, val = call(buf.write, op[1])
        rep.check(for_real == 'ok', '%s: write raised %s', what, val)
        model = model + op[1]
    elif op[0] == 'r':
        n = {'all': len(model), 'more': len(model) + 1}.get(op[1], op[1])
        if n <= len(model):
            got = buf.read(n)
            rep.equal(got, model[:n], '%s: read(%d)' % (what, n))
            rep.check(isinstance(got, bytes), '%s: read gives %s', what, type(got))
            model = model[n:]
        else:
            refused(rep, BitforgeError, '%s: read(%d) of %d' % (what, n, len(model)), buf.read, n)
    else:
        r = T.Reader(model)
        try:
            want = r.varint()
        except T.Bad:
            refused(rep, BitforgeError, '%s: read_varint of %s' % (what, model.hex()), buf.read_varint)
            return None                  # what a refused variable-length integer leaves is not specified
        rep.equal(buf.read_varint(), want, '%s: read_varint' % what)
        model = model[r.i:]
    rep.equal(bytes(buf), model, '%s: content after %s' % (what, op))
    rep.equal(len(buf), len(model), '%s: length' % what)
    return model


def wide(n, rep):
    """An integer of any number of bytes."""
    size = (n.bit_length() + 7) // 8
    name = 'an integer of %d bytes (0x%x...)' % (size, n >> max(0, 8 * size - 64))
    rep.state('int', hex(n))
    ib, enc = utils.intbytes, encoding.encode_int

    def same(got, want, what):
        rep.step()
        if got != want: rep.fail('%s of %s is wrong' % (what, name))
    for big, order in ((True, 'big'), (False, 'little')):
        raw = minimal(n) if big else minimal(n)[::-1]
        same(enc(n, big_endian=big), raw, 'encode_int (%s)' % order)
        for w in (size, size + 1, size + 300):
            same(enc(n, big_endian=big, length=w), n.to_bytes(w, order), 'encode_int in %d bytes (%s)' % (w, order))
            same(encoding.decode_int(n.to_bytes(w, order), big_endian=big), n, 'decode_int of the %d bytes (%s)' % (w, order))
            same(ib.to_bytes(n, w, order), n.to_bytes(w, order), 'intbytes.to_bytes in %d bytes (%s)' % (w, order))
            same(ib.from_bytes(n.to_bytes(w, order), order), n, 'intbytes.from_bytes of the %d bytes (%s)' % (w, order))
        for w in {size - 1, size // 2, 1} - {0, size}:
            refused(rep, ANY, 'encode_int of %s in %d bytes (%s)' % (name, w, order), enc, n, big_endian=big, length=w)
            refused(rep, ANY, 'intbytes.to_bytes of %s in %d bytes (%s)' % (name, w, order), ib.to_bytes, n, w, order)
    same(ib.int_to_bytes(n), minimal(n), 'int_to_bytes'); same(ib.int_from_bytes(minimal(n)), n, 'int_from_bytes')
    rep.outcome('wide')


def run(case, rep):
    kind = case[0]
    if kind == 'small':
        for n in range(case[1], case[2]): integer(n, (0, 1, 2, 3, 4, 8) if n % 97 == 0 or n < 300 else (2, 4), rep)
        rep.sample('integers %d..%d' % (case[1], case[2]))
    elif kind == 'width':
        for n in specials()[case[1]:case[2]]: integer(n, range(0, case[3] + 1), rep)
    elif kind == 'wide':                      # integers of many bytes
        for k in case[1]:
            for n in (256 ** k - 1, 256 ** (k - 1), 256 ** (k - 1) + 1, int.from_bytes(patterned(k, k), 'big'), 1 << (8 * k - 1), 1 << (4 * k)): wide(n, rep)
    elif kind == 'negative':
        for n in [-v for v in specials() if v]:
            rep.state('neg', n)
            for w in (None, 1, 2, 4, 8, 32):
                for big in (True, False): refused(rep, ANY, 'encode_int(%d, %s, %s)' % (n, big, w), encoding.encode_int, n, big_endian=big, length=w)
            refused(rep, ANY, 'encode_varint(%d)' % n, encoding.encode_varint, n)
            refused(rep, ANY, 'intbytes.to_bytes(%d)' % n, utils.intbytes.to_bytes, n, 40)
        rep.outcome('refused')
    elif kind == 'decode':
        for hi in range(case[1], case[1] + 16):
            for s in [bytes([hi])] + [bytes([hi, lo]) for lo in range(256)]:
                decode(s, rep)
    elif kind == 'decode_long':
        n = case[1]
        for s in (b'\0' * n, b'\xff' * n, patterned(n, n), b'\0' * (n // 2) + patterned(n - n // 2, 3), patterned(n // 2, 4) + b'\0' * (n - n // 2),
                  (b'\x80' + b'\0' * n)[:n], (b'\x7f' + b'\xff' * n)[:n]):
            decode(s, rep)
            rep.equal(utils.intbytes.bytes_from_ints(list(s)), s, 'bytes_from_ints')
            rep.equal(list(utils.intbytes.bytes_to_ints(s)), list(s), 'bytes_to_ints')
        for v in range(256): rep.equal(utils.intbytes.bytes_from_int(v), bytes([v]), 'bytes_from_int(%d)' % v)
    elif kind == 'varint':
        for first in range(case[1], case[1] + 16):
            for n in range(0, 11):
                for body in (b'\0' * n, b'\xff' * n, patterned(n, 7), (b'\0' * (n - 1) + b'\1')[:n], (b'\1' + b'\0' * n)[:n], (b'\xfd' + b'\0' * n)[:n], (b'\xfc' + b'\0' * n)[:n]):
                    s = bytes([first]) + body
                    rep.state('varint', s)
                    apply(Buffer(s), ('v',), s, rep, ('initial', s.hex()))
        # the edges between the forms
        for w, marker in ((2, 0xfd), (4, 0xfe), (8, 0xff)):
            for v in specials():
                if v < 256 ** w:
                    s = bytes([marker]) + v.to_bytes(w, 'little') + b'\1\2'
                    apply(Buffer(s), ('v',), s, rep, ('initial', s.hex()))
        apply(Buffer(), ('v',), b'', rep, ('empty',))
    elif kind == 'buffer':
        _, i, prefix, depth = case
        for tail_len in range(0, depth - 1):
            for tail in itertools.product(range(len(OPS)), repeat=tail_len):
                path = tuple(OPS[k] for k in prefix + tail)
                model = INITIAL[i]
                buf = Buffer(model)
                for k, op in enumerate(path):
                    model = apply(buf, op, model, rep, (i,) + path[:k]) if k == len(path) - 1 or tail_len == 0 else silent(buf, op, model)
                    if model is None: break
                    rep.state('buffer', model)
        rep.outcome('sequences of length <= %d' % depth)
        rep.sample('buffer %d then %s' % (i, [OPS[k] for k in prefix]))
    elif kind == 'alias':
        src = bytearray(b'abcdef')
        b = Buffer(src)
        src[0] = 0
        rep.equal(b.read(3), b'abc', 'buffer made from data that changed later')
        src2 = bytearray(b'xyz')
        b.write(src2)
        src2[0] = 0
        rep.equal(b.read(6), b'defxyz', 'buffer written from data that changed later')
        for cls in (bytes, bytearray, list):
            b = Buffer(b'12')
            b.write(cls(b'34'))
            rep.equal(b.read(4), b'1234', 'write of a %s' % cls.__name__)
        for n in (253, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 10 ** 6):
            big = patterned(n, 2)
            for k in (0, 1, n // 2, n - 1, n, n + 1, 2 * n):
                c = Buffer(big)
                c.write(big)
                rep.equal(len(c), 2 * n, 'length after write')
                rep.equal(c.read(k), (big + big)[:k], 'read %d of %d' % (k, 2 * n))
                refused(rep, BitforgeError, 'read beyond the end', c.read, 2 * n - k + 1)
                rep.equal(c.read(2 * n - k), (big + big)[k:], 'the rest after %d of %d' % (k, 2 * n))
                rep.equal(len(c), 0, 'left')
        for n in range(0, 40):
            for k in range(0, n + 3):
                c = Buffer(patterned(n, 1))
                if k <= n: rep.equal(c.read(k) + bytes(c), patterned(n, 1), 'read %d of %d' % (k, n))
                else:
                    refused(rep, BitforgeError, 'read %d of %d' % (k, n), c.read, k)
                    rep.equal(bytes(c), patterned(n, 1), 'content after a refused read')
                rep.equal(len(c), n - k if k <= n else n, 'left after reading %d of %d' % (k, n))


def silent(buf, op, model):
    """The same as apply for steps already checked as the last step of a shorter sequence."""
    if op[0] == 'w':
        buf.write(op[1])
        return model + op[1]
    if op[0] == 'r':
        n = {'all': len(model), 'more': len(model) + 1}.get(op[1], op[1])
        call(buf.read, n)
        return model[n:] if n <= len(model) else model
    r = T.Reader(model)
    kind, _ = call(buf.read_varint)
    try:
        r.varint()
    except T.Bad:
        return None
    return model[r.i:]


def decode(s, rep):
    rep.state('decode', s)
    rep.step(6)
    big, little = int.from_bytes(s, 'big'), int.from_bytes(s, 'little')
    for cls in (bytes, bytearray):
        rep.equal(encoding.decode_int(cls(s)), big, 'decode_int(%s)' % s.hex())
        rep.equal(encoding.decode_int(cls(s), big_endian=False), little, 'decode_int(%s, little)' % s.hex())
        src = cls(s)
        encoding.decode_int(src, big_endian=False)
        rep.check(src == s, 'decode_int changed its argument')
    ib = utils.intbytes
    rep.equal(ib.int_from_bytes(s), big, 'int_from_bytes(%s)' % s.hex())
    rep.equal((ib.from_bytes(s), ib.from_bytes(s, 'big'), ib.from_bytes(s, 'little')), (big, big, little), 'intbytes.from_bytes(%s)' % s.hex())
    if s:
        rep.equal((ib.from_bytes(s, 'big', True), ib.from_bytes(s, 'little', signed=True)),
                  (int.from_bytes(s, 'big', signed=True), int.from_bytes(s, 'little', signed=True)), 'intbytes.from_bytes(%s, signed)' % s.hex())

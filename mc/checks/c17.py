"""C17: script numbers."""
from ..common import *

ID = 'C17'
RULE = ('State: an integer, or a byte string with a size limit and the minimality requirement. Encoding and decoding are compared with an '
        'independent encoder; the strings accepted under the minimality requirement must be exactly the image of the encoder.')
BOUNDS = {
    'quick': 'all integers -140000..140000, +-2^k, +-(2^k - 1), +-(2^k + 1) for k <= 80; all byte strings of length <= 2, with every size '
             'limit 0..6, minimal or not, as bytes and bytearray; all strings of 3..5 bytes over 12 byte values',
    'thorough': 'all 16777216 byte strings of length 3; strings of 3..5 bytes over 24 byte values; integers up to 2^22',
}
V = [0, 1, 2, 0x10, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xc0, 0xfe, 0xff]
V24 = sorted(set(V) | {3, 4, 8, 0x20, 0x40, 0x7d, 0x83, 0x84, 0x88, 0x90, 0xa0, 0xfd})


def cases(tier):
    t = tier == 'thorough'
    top = 2 ** 22 if t else 140000
    step = top // 32
    for lo in range(-top, top, step): yield ('ints', lo, lo + step)
    yield ('powers',)
    for a in range(0, 256, 4): yield ('two', a, a + 4)
    vs = V24 if t else V
    for n in (3, 4, 5):
        for a in vs: yield ('longer', n, a, tuple(vs))
    if t:
        for a in range(256): yield ('three', a)
    yield ('long',)


def integer(n, rep):
    rep.state('int', n)
    want = B.num_enc(n)
    rep.step(2)
    rep.equal(bytes(encoding.encode_script_number(n)), want, 'encode_script_number(%d)' % n)
    size = max(4, len(want))
    for minimal in (False, True):
        rep.equal(encoding.decode_script_number(bytes(want), minimal, size), n, 'decode_script_number of %d' % n)
        rep.equal(encoding.decode_script_number(encoding.encode_script_number(n), f_require_minimal=minimal, size=size), n, 'decode of encode of %d' % n)


def string(s, rep, sizes):
    rep.state('str', s)
    value, minimal_ok = B.num_dec(s), B.num_minimal(s)
    for size in sizes:
        for minimal in (False, True):
            want = value if len(s) <= size and (minimal_ok or not minimal) else None
            for cls in (bytes, bytearray):
                rep.step()
                src = cls(s)
                k, got = call(encoding.decode_script_number, src, minimal, size)
                rep.traces += 1
                if want is None:
                    if k == 'ok': rep.fail('decode_script_number(%s, %s, %d) gives %r, expected an error' % (s.hex(), minimal, size, got))
                    if not isinstance(got, BitforgeError) or str_of(got) is None: rep.fail('decode_script_number(%s, %s, %d) escaped with %s' % (s.hex(), minimal, size, type(got)))
                elif k == 'err' or got != want:
                    rep.fail('decode_script_number(%s, %s, %d) gives %s, expected %d' % (s.hex(), minimal, size, short(got), want))
                if src != s: rep.fail('decode_script_number changed its argument %s' % s.hex())
    if len(s) <= 4:
        k, got = call(encoding.decode_script_number, s)
        rep.equal((k, got), ('ok', value), 'decode_script_number(%s)' % s.hex())
    else: refused(rep, BitforgeError, 'decode_script_number(%s)' % s.hex(), encoding.decode_script_number, s)
    rep.outcome('minimal' if minimal_ok else 'not minimal')


def run(case, rep):
    kind = case[0]
    if kind == 'ints':
        for n in range(case[1], case[2]): integer(n, rep)
    elif kind == 'powers':
        for k in range(0, 400):
            for v in (2 ** k - 1, 2 ** k, 2 ** k + 1, 255 << k, 0x80 << k, 0x7f << k):
                integer(v, rep); integer(-v, rep)
        rep.sample('powers of two up to 2^400')
    elif kind == 'two':
        if case[1] == 0: string(b'', rep, range(0, 7))
        for a in range(case[1], case[2]):
            string(bytes([a]), rep, range(0, 7))
            for b in range(256): string(bytes([a, b]), rep, (0, 1, 2, 4, 5))
    elif kind == 'longer':
        _, n, a, vs = case
        for rest in itertools.product(vs, repeat=n - 1):
            string(bytes((a,) + rest), rep, (4, 5) if n >= 4 else (2, 3, 4))
        rep.sample('%d bytes starting with %02x' % (n, a))
    elif kind == 'three':
        d = encoding.decode_script_number
        for b in range(256):
            for c in range(256):
                s = bytes((case[1], b, c))
                rep.step()
                if d(s) != B.num_dec(s): rep.fail('decode_script_number(%s) gives %s' % (s.hex(), d(s)))
                k, got = call(d, s, True)
                if (k == 'ok') != B.num_minimal(s): rep.fail('decode_script_number(%s, True): %s' % (s.hex(), got))
        rep.state('three', case[1])
        rep.trace(65536)
    elif kind == 'long':
        for n in list(range(5, 40)) + [64, 75, 76, 128, 255, 256, 519, 520, 521]:
            for s in (b'\0' * n, b'\xff' * n, b'\0' * (n - 1) + b'\x80', b'\1' * n):
                string(s, rep, (4, 5, n - 1, n, n + 1))

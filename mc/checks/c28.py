"""C28: the signature format check accepts exactly strict DER."""
from ..common import *
from bitforge import signature

ID = 'C28'
RULE = ('State: a byte string. validate_signature() is compared with an independent forward parser of BIP66. Spaces: all short strings over an alphabet that '
        'contains every byte value the format distinguishes; all layouts (total length, both element lengths) with all combinations of leading bytes; every '
        'byte of valid signatures replaced by every value, and two at a time by every distinguished value; all truncations and extensions.')
BOUNDS = {
    'quick': 'all strings of 0 to 5 bytes over 9 values; all strings of 8 to 10 bytes with 3 x 5 x 2 x (length+4) headers and 5 values elsewhere; total lengths 0 to 80 x R '
             'length 0 to 255 x S length 0 to 255; all consistent layouts x 25 x 25 leading bytes; 24 valid signatures: all 256 values of every byte, all cuts and extensions, pairs of bytes of 8',
    'thorough': 'strings of 0 to 6 bytes over 9 values; 8 to 11 bytes with 6 values; total lengths to 300; 49 x 49 leading bytes; pairs of bytes of all signatures',
}
SHORT = (0x00, 0x01, 0x02, 0x03, 0x06, 0x30, 0x7f, 0x80, 0xff)
VALS = (0x00, 0x01, 0x02, 0x7f, 0x80, 0xff, 0x30)


def sigs():
    """(R bytes, S bytes) of valid signatures of every shape."""
    ints = [b'\1', b'\x7f', b'\0\x80', b'\0\xff\0', b'\1\0', b'\x7f' * 32, b'\0' + b'\x80' * 32, b'\0' + b'\xff' * 32, b'\1' + b'\0' * 31, b'\2\2\2\2', b'\0']
    out = []
    for i, r in enumerate(ints):
        for j, s in enumerate(ints):
            if (i + 2 * j) % 5 == 0: out.append((r, s))
    return out[:24]


def build(r, s, ht=1):
    body = b'\2' + bytes([len(r)]) + r + b'\2' + bytes([len(s)]) + s
    return b'\x30' + bytes([len(body)]) + body + bytes([ht])


def cases(tier):
    t = tier == 'thorough'
    for n in range(7 if t else 6):
        if n == 0: yield ('short', 0, None)
        else:
            for a in SHORT: yield ('short', n, a)
    for n in range(8, 12 if t else 11):
        for b3 in list(range(n + 1)) + [0x80, 0xfe, 0xff]: yield ('head', n, b3, 6 if t else 5)
    for n in range(301 if t else 81): yield ('layout', n)
    for n in range(7, 80):
        yield ('consistent', n, 7 if t else 5)
    for i in range(24):
        yield ('bytes', i)
        if t or i % 3 == 0: yield ('pairs', i)


def probe(rep, sig):
    want = B.strict_der(sig)
    rep.transitions += 1
    rep.traces += 1
    try:
        got = signature.validate_signature(sig)
    except Exception as e:
        rep.fail('validate_signature(%s) raised %r' % (sig.hex(), e))
    if bool(got) != want or got not in (True, False):
        rep.fail('validate_signature(%s) is %r, expected %s' % (sig.hex(), got, want))
    rep.outcomes['accepted' if want else 'rejected'] += 1
    return want


def both(rep, sig):
    probe(rep, sig)
    arr = bytearray(sig)
    k, got = call(signature.validate_signature, arr)
    if k == 'err' or bool(got) != B.strict_der(sig): rep.fail('validate_signature(bytearray %s): %r' % (sig.hex(), got))
    if arr != sig: rep.fail('validate_signature changed its argument %s' % sig.hex())
    rep.traces += 1
    rep.state(sig)


def run(case, rep):
    kind = case[0]
    if kind == 'short':
        _, n, a = case
        if a is None: return both(rep, b'')
        for rest in itertools.product(SHORT, repeat=n - 1): both(rep, bytes((a,) + rest))
    elif kind == 'head':
        _, n, b3, nv = case
        vals = VALS[:nv]
        for b0 in (0x30, 0x31, 0):
            for b1 in (n - 3, n - 2, n - 4, 0, 0x80 | (n - 3)):
                for b2 in (2, 3):
                    if b0 != 0x30 and (b1 != n - 3 or b2 != 2): continue
                    head = bytes((b0, b1, b2, b3))
                    for rest in itertools.product(vals, repeat=n - 4):
                        probe(rep, head + bytes(rest))
        rep.state(case)
    elif kind == 'layout':
        _, n = case
        for lr in range(256):
            for ls in range(256):
                sig = bytearray(b'\x11' * n)
                for pos, v in ((0, 0x30), (1, (n - 3) & 255), (2, 2), (3, lr), (4 + lr, 2), (5 + lr, ls)):
                    if pos < n: sig[pos] = v
                probe(rep, bytes(sig))
                if 5 + lr >= n: break      # S's length lies outside: its value does not matter
        rep.state(case)
    elif kind == 'consistent':
        _, n, nv = case
        heads = list(itertools.product(VALS[:nv], repeat=2))
        for lr in range(0, n - 6):
            ls = n - 7 - lr
            for h in heads:
                r = bytes(h[:lr]) + b'\x55' * (lr - 2)
                if lr < 2 and h[1] != VALS[0]: continue
                for g in heads:
                    if ls < 2 and g[1] != VALS[0]: continue
                    s = bytes(g[:ls]) + b'\x55' * (ls - 2)
                    body = b'\2' + bytes([lr]) + r[:lr] + b'\2' + bytes([ls]) + s[:ls]
                    probe(rep, b'\x30' + bytes([len(body)]) + body + b'\1')
        rep.state(case)
    elif kind == 'bytes':
        r, s = sigs()[case[1]]
        sig = build(r, s)
        want = probe(rep, sig)
        if not want and 9 <= len(sig) <= 73: rep.fail('not strict: ' + sig.hex())
        for p in range(len(sig)):
            for v in range(256): both(rep, sig[:p] + bytes([v]) + sig[p + 1:])
        for p in range(len(sig)): both(rep, sig[:p])
        for p in range(len(sig)): both(rep, sig[:p] + sig[p + 1:])
        for v in range(256): both(rep, sig + bytes([v]))
        for v in VALS:
            for k in (1, 2, 3, 30, 60, 200): both(rep, sig + bytes([v]) * k)
            for p in range(len(sig)): both(rep, sig[:p] + bytes([v]) + sig[p:])
        rep.sample(sig.hex())
    elif kind == 'pairs':
        r, s = sigs()[case[1]]
        sig = build(r, s)
        for p in range(len(sig)):
            for q in range(p):
                for v in VALS[:6] + (sig[p] ^ 1, (sig[p] - 1) & 255, (sig[p] + 1) & 255):
                    for w in VALS[:6] + (sig[q] ^ 1, (sig[q] - 1) & 255, (sig[q] + 1) & 255):
                        bad = bytearray(sig)
                        bad[p], bad[q] = v, w
                        probe(rep, bytes(bad))
        rep.state(case)

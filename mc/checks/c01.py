"""C01: Base58Check."""
from ..common import *

ID = 'C01'
RULE = ('State: a byte payload or a text. For every payload in the bounds encode_base58h is compared with an independent '
        'encoder and decoded back; for every text in the bounds decode_base58h must return exactly what an independent '
        'strict decoder returns, or raise the base58 error when that one refuses.')
BOUNDS = {
    'quick': 'all payloads of 0..2 bytes; lengths 0..120 x 0..10 leading zeros x 4 fills; 0..319 leading zeros x 7 payloads; lengths up to 1000; all texts of 0..3 characters over '
             'the alphabet + 6 foreign characters; every single substitution (all 128 ASCII + 8 foreign), deletion, insertion, '
             'swap, truncation and rotation of 24 texts; every pair of substitutions of 3 short texts',
    'thorough': 'quick + all payloads of 3 bytes, all texts of 4 characters, every pair of substitutions of an address '
                '(alphabet) and every edit pair of 6 short texts',
}
FOREIGN = ['0', 'O', 'I', 'l', ' ', '\u00e9']
ODD = ['\u0131', '\u00e9', '\uff11', '\u2460', '\U0001d7cf', '\u200b', '\ud800', '\x80']
ASCII = [chr(i) for i in range(128)]

PAYLOADS = [b'', b'\0', b'\1', b'\xff', b'\0\0\0\0', b'\0\1', b'\1\0', b'\0' * 21, b'\0' + b'\xff' * 20, b'\0\0' + b'\x11' * 19,
            b'\5' + patterned(20, 1), b'\x6f' + patterned(20, 2), b'\xc4' + patterned(20, 3), b'\x80' + patterned(32, 4),
            b'\x80' + patterned(32, 5) + b'\1', b'\xef' + patterned(32, 6) + b'\1', b'\x80' + b'\0' * 31 + b'\1',
            b'\x80' + b'\0' * 31 + b'\1\1', bytes.fromhex('0488ade4') + b'\0' * 9 + patterned(32, 7) + b'\0' + patterned(32, 8),
            bytes.fromhex('043587cf') + b'\xff' * 9 + patterned(32, 9) + b'\2' + patterned(32, 10),
            patterned(57, 11), b'\0' * 9, patterned(2, 12), patterned(3, 13)]


def check_payload(p, rep):
    rep.state('p', p)
    want = B.b58cenc(p)
    rep.step(2)
    text = encoding.encode_base58h(p)
    rep.equal(text, want, 'encode %s' % p.hex())
    back = encoding.decode_base58h(text)
    rep.equal(bytes(back), p, 'decode %s' % text)
    rep.outcome('round trip')


def check_text(t, rep):
    rep.state('t', t)
    agree(rep, 'decode %s' % ascii(t), B.b58cdec(t), encoding.decode_base58h, (t,), encoding.InvalidBase58h, bytes)
    # the utility below it has its own error class
    rep.step()
    kind, val = call(utils.encoding.is_hashed_base58_valid, t)
    rep.equal((kind, kind == 'ok' and bool(val)), ('ok', B.b58cdec(t) is not None), 'is_hashed_base58_valid %s' % ascii(t))


def cases(tier):
    yield ('short', 0)
    for i in range(256): yield ('two', i)
    for n in range(121): yield ('shape', n)
    for n in range(0, 320, 10): yield ('zeros', n)
    for n in (200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096, 5000): yield ('long', n)
    for c in list(B.ALPHABET) + FOREIGN: yield ('texts', c, 3)
    for i in range(len(PAYLOADS)): yield ('edits', i)
    for i in (0, 1, 2): yield ('pairs', i)
    for i in range(0, 128, 4): yield ('unit', i)
    if tier == 'thorough':
        for i in range(256):
            for j in range(0, 256, 16): yield ('three', i, j)
        for c in B.ALPHABET:
            for d in B.ALPHABET: yield ('texts4', c, d)
        for i in (3, 5, 6): yield ('pairs', i)
        for pos in range(34): yield ('addrpairs', pos)


def run(case, rep):
    kind = case[0]
    if kind == 'short':
        check_payload(b'', rep)
        for i in range(256): check_payload(bytes([i]), rep)
    elif kind == 'two':
        for i in range(256): check_payload(bytes([case[1], i]), rep)
    elif kind == 'three':
        for j in range(case[2], case[2] + 16):
            for k in range(256): check_payload(bytes([case[1], j, k]), rep)
    elif kind == 'shape':
        n = case[1]
        for z in range(min(n, 10) + 1):
            for fill in (b'\1' * n, b'\xff' * n, patterned(n, n), b'\1' + b'\0' * n):
                check_payload(b'\0' * z + fill[:n - z], rep)
        rep.sample('%d bytes -> %s' % (n, B.b58cenc(patterned(n, n))))
    elif kind == 'zeros':                     # long runs of leading zeros, before payloads of several lengths
        for z in range(case[1], case[1] + 10):
            for rest in (b'', b'\1', b'\xff', b'\1\0', patterned(3, z), patterned(20, z), patterned(33, z) + b'\0'):
                check_payload(b'\0' * z + rest, rep)
                check_text('1' * z + B.b58cenc(rest), rep)
                check_text('1' * z + B.b58enc(rest), rep)
    elif kind == 'long':
        n = case[1]
        for p in (patterned(n, n), b'\0' * n, b'\xff' * n, b'\0' * (n // 2) + patterned(n // 2, 3), patterned(n // 2, 4) + b'\0' * (n // 2)): check_payload(p, rep)
    elif kind == 'texts':
        alpha = list(B.ALPHABET) + FOREIGN
        check_text('', rep)
        check_text(case[1], rep)
        for c in alpha:
            check_text(case[1] + c, rep)
            for d in alpha: check_text(case[1] + c + d, rep)
    elif kind == 'texts4':
        for c in B.ALPHABET:
            for d in B.ALPHABET: check_text(case[1] + case[2] + c + d, rep)
    elif kind == 'edits':
        text = B.b58cenc(PAYLOADS[case[1]])
        check_text(text, rep)
        for t in itertools.chain(edits(text, ASCII + ODD), decorated(text)): check_text(t, rep)
        for i in range(len(text)):
            check_text(text[:i], rep)
            check_text(text[i:], rep)
            check_text(text[i:] + text[:i], rep)
        for t in (text.lower(), text.upper(), text.swapcase(), text * 2, '1' + text, text + '\n', ' ' + text, '\t' + text + ' '):
            check_text(t, rep)
        raw = PAYLOADS[case[1]] + B.dsha(PAYLOADS[case[1]])[:4]
        for i in range(len(raw)):            # every byte of payload and checksum, every bit
            for bit in range(8):
                bad = bytearray(raw)
                bad[i] ^= 1 << bit
                check_text(B.b58enc(bytes(bad)), rep)
        for cut in range(len(raw)): check_text(B.b58enc(raw[:cut]), rep)
        rep.sample('all edits of ' + text)
    elif kind == 'pairs':
        text = B.b58cenc(PAYLOADS[case[1]])
        for i in range(len(text)):
            for j in range(i + 1, len(text)):
                for c in B.ALPHABET:
                    for d in B.ALPHABET:
                        check_text(text[:i] + c + text[i + 1:j] + d + text[j + 1:], rep)
    elif kind == 'addrpairs':
        text = B.b58cenc(PAYLOADS[10])
        i = case[1]
        if i < len(text):
            for j in range(i + 1, len(text)):
                for c in B.ALPHABET:
                    for d in B.ALPHABET:
                        check_text(text[:i] + c + text[i + 1:j] + d + text[j + 1:], rep)
    elif kind == 'unit':
        # single characters of every code point block, and long runs of one character
        for i in range(case[1], case[1] + 4):
            for n in (1, 2, 5, 30, 60): check_text(chr(i) * n, rep)

"""C14: the binary form of scripts."""
from ..common import *
from ..ref import tx as T

ID = 'C14'
RULE = ('State: a byte string, or a list of instructions. Byte strings are read by an independent parser and by the implementation, which '
        'must accept the same ones, see the same operations and write the same bytes; instruction lists are written and read back; data '
        'of every length is compiled and compared with the shortest push.')
BOUNDS = {
    'quick': 'all byte strings of length <= 2; all of length 3 over 36 byte values; all sequences of <= 4 of 22 encoded instructions, those of <= 3 '
             'also cut at, without and after each byte; scripts of 0..400 and up to 10001 instructions; every ordered pair of push operations, alone, around another instruction and repeated; every push operation 1..78 with actual lengths around the declared one; compile of '
             'every data length 1..700 and around 2^16, and of data with every first and last byte in 21 lengths; declared lengths of every bit size; all instruction constructors with lengths 0..80 for every operation',
    'thorough': 'all byte strings of length 3 over 76 values; data lengths up to 5000',
}
BYTES3 = [0, 1, 2, 3, 0x14, 0x21, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61, 0x63, 0x6a, 0x76, 0x80, 0x87, 0xa9, 0xac, 0xae, 0xba, 0xfe, 0xff]
INS = [b'\x00', b'\x51', b'\x60', b'\x4f', b'\x76', b'\xa9', b'\x88', b'\x87', b'\xac', b'\xae', b'\x6a', b'\xba', b'\xff', b'\x01\x00', b'\x02\x4c\x4e', b'\x4b' + patterned(75, 1),
       b'\x4c\x00', b'\x4c\x01\x05', b'\x4c\x4c' + patterned(76, 2), b'\x4d\x00\x00', b'\x4d\x01\x00\x07', b'\x4e\x02\x00\x00\x00\x01\x02']


def ref(b):
    try:
        return tuple((op, d) for op, d in T.script_ops(b))
    except T.Bad:
        return None


def view(s): return tuple((i.opcode.number, i.data) for i in s.instructions)


def data(b, rep, deep=False):
    rep.state(b)
    want = ref(b)
    got = agree(rep, 'Script.from_bytes(%s)' % short(b.hex()), want, Script.from_bytes, (b,), BitforgeError, view)
    if want is None: return
    rep.equal(got.to_bytes(), b, 'written back')
    if deep:
        rep.equal(got.to_hex(), b.hex(), 'to_hex')
        rep.equal(got.to_hash(), B.hash160(b), 'to_hash')
        again = Script([Instruction(Opcode(op), d) for op, d in want])
        rep.equal(again.to_bytes(), b, 'built from instructions')
        rep.check(again == got and hash(again) == hash(got), 'the script read differs from the same one built: %s', b.hex())
        rep.equal(Script.create([Instruction(Opcode(op), d) for op, d in want]).to_bytes(), b, 'Script.create')
        rep.equal(b''.join(i.to_bytes() for i in got.instructions), b, 'bytes of the instructions')
        rep.equal(''.join(i.to_hex() for i in got.instructions), b.hex(), 'hex of the instructions')
        rep.equal(view(Script.compile([(Opcode(op), d) if d is not None else Opcode(op) for op, d in want])), want, 'compiled')


def cases(tier):
    t = tier == 'thorough'
    for lo in range(0, 256, 4): yield ('two', lo, lo + 4)
    values = sorted(set(BYTES3) | set(range(0, 6)) | set(range(74, 84)) | {0x62, 0x64, 0x67, 0x68, 0xfd}) if not t else sorted(set(BYTES3) | set(range(0, 12)) | set(range(72, 84)) | set(range(96, 112)) | set(range(165, 190)) | set(range(250, 256)))
    for a in values: yield ('three', a, tuple(values))
    for n in (1, 2): yield ('seq', (), n)
    for a in range(len(INS)):
        yield ('seq', (a,), 2)
        for b in range(len(INS)): yield ('seq', (a, b), 2)
    for lo in range(0, 400, 25): yield ('long', tuple(range(lo, lo + 25)))
    for a in range(1, 79): yield ('pairs', a)
    yield ('long', (999, 1000, 1001, 1024, 9999, 10000, 10001))
    for op in range(1, 79): yield ('push', op)
    for lo in range(1, 701 if not t else 5001, 50): yield ('compile', lo, lo + 50)
    for n in (65534, 65535, 65536, 65537, 70000, 100000): yield ('compile', n, n + 1)
    for lo in range(0, 256, 16): yield ('make', lo)
    for lo in range(0, 256, 16): yield ('bytes', lo)


def run(case, rep):
    kind = case[0]
    if kind == 'two':
        if case[1] == 0: data(b'', rep, True)
        for a in range(case[1], case[2]):
            data(bytes([a]), rep, True)
            for b in range(256): data(bytes([a, b]), rep, True)
    elif kind == 'three':
        for b in case[2]:
            for c in case[2]: data(bytes([case[1], b, c]), rep)
    elif kind == 'seq':
        _, prefix, n = case
        for k in (range(1, n + 1) if not prefix else (n,)):
            for combo in itertools.product(range(len(INS)), repeat=k):
                parts = [INS[i] for i in prefix + combo]
                raw = b''.join(parts)
                data(raw, rep, True)
                if len(raw) < 30 and len(prefix) < 2:
                    for i in range(len(raw)): data(raw[:i] + raw[i + 1:], rep)
                    for i in range(len(raw)): data(raw[:i], rep)
                    data(raw + b'\x01', rep)
                    data(raw + b'\x4d\x01', rep)
        rep.sample('sequences starting with %s' % [INS[i].hex()[:8] for i in prefix])
    elif kind == 'long':
        for n in case[1]:
            data(b'\x61' * n, rep, True)
            data(b'\x01\x61' * n, rep, True)
            data((b'\x02\x01\x02\x51\x4c\x01\x07' * n)[:n], rep, True)
    elif kind == 'pairs':                     # every direct push after every other, and repeated
        def p(n): return bytes([n]) + (patterned(n, n) if n < 76 else {76: b'\x05', 77: b'\x05\0', 78: b'\x05\0\0\0'}[n] + patterned(5, n))
        a = p(case[1])
        for b in range(1, 79):
            data(a + p(b), rep)
            data(a + b'\x61' + p(b), rep)
            data(p(b) + a + p(b), rep)
        for n in range(1, 9): data(a * n, rep, True)
    elif kind == 'push':
        op = case[1]
        if op <= 75:
            for n in range(0, op + 3):
                for fill in (b'\x61', b'\x01', b'\x4c'): data(bytes([op]) + fill * n, rep, n == op)
        else:
            w = {76: 1, 77: 2, 78: 4}[op]
            for declared in (0, 1, 2, 74, 75, 76, 77, 127, 128, 252, 253, 254, 255, 256, 257, 519, 520, 521, 32767, 32768, 65534, 65535, 65536, 65537, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
                if declared >= 256 ** w: continue
                head = bytes([op]) + declared.to_bytes(w, 'little')
                have = min(declared, 70000)
                for n in sorted({0, 1, max(0, have - 1), have, have + 1}):
                    body = patterned(n, 4) if n < 1000 else b'\x61' * n
                    data(head + body, rep, n == declared and n < 3000)
                # the same length with its bytes the other way round must mean the other length
                big = bytes([op]) + declared.to_bytes(w, 'big')
                data(big + b'\x61' * min(have, 600), rep)
            for cut in range(0, w + 1): data(bytes([op]) + b'\x01\x00\x00\x00'[:cut], rep)
    elif kind == 'compile':
        for n in range(case[1], case[2]):
            d = patterned(n, 6) if n < 1000 else b'\xab' * n
            rep.state('compile', n)
            want = T.push(d)
            rep.step(3)
            s = Script.compile([d])
            rep.equal(s.to_bytes(), want, 'compile of %d bytes' % n)
            rep.equal(Script.from_bytes(want).instructions[0].data, d, 'data of %d bytes read back' % n)
            rep.check(Script.from_bytes(want) == s, 'compiled script of %d bytes read back differs', n)
            rep.equal(Instruction.push_for(d).to_bytes(), want, 'push_for of %d bytes' % n)
            rep.equal(Script.compile([Opcode(0x76), d, Opcode(0x87), d, 0xac]).to_bytes(), b'\x76' + want + b'\x87' + want + b'\xac', 'compile around %d bytes' % n)
            rep.equal(s.to_hash(), B.hash160(want), 'hash of a push of %d bytes' % n)
            rep.outcome('direct push' if want[0] < 76 else 'push with operation %d' % want[0])
    elif kind == 'bytes':                     # data starting or ending with every byte
        for b in range(case[1], case[1] + 16):
            for n in (1, 2, 3, 4, 5, 8, 9, 20, 32, 33, 64, 65, 71, 72, 73, 75, 76, 77, 255, 256, 257):
                for d in {bytes([b]) * n, bytes([b]) + patterned(n - 1, 9), patterned(n - 1, 9) + bytes([b])}:
                    want = T.push(d)
                    rep.step(3)
                    rep.equal(Instruction.push_for(d).to_bytes(), want, 'push_for of %s' % short(d.hex()))
                    rep.equal(Script.compile([d]).to_bytes(), want, 'compile of %s' % short(d.hex()))
                    data(want, rep, True)
                    data(b'\x76' + want + bytes([0xac]), rep)
        if case[1] == 0:
            for k in range(32):
                for v in {2 ** k, 2 ** k - 1, 2 ** k + 1, 3 * 2 ** k % 2 ** 32}:
                    for n in (0, 1, 2, 9): data(b'\x4e' + v.to_bytes(4, 'little') + b'\x61' * n, rep)
                    if v < 65536:
                        for n in (0, 1, 2, 9): data(b'\x4d' + v.to_bytes(2, 'little') + b'\x61' * n, rep)
    elif kind == 'make':
        for op in range(case[1], case[1] + 16):
            o = Opcode(op)
            rep.equal(o.number, op, 'number of operation %d' % op)
            rep.equal(o.bytes, bytes([op]), 'byte of operation %d' % op)
            for n in [None] + list(range(0, 80)) + [254, 255, 256, 257, 520, 65535, 65536]:
                rep.state('make', op, n)
                d = None if n is None else b'\x07' * n
                legal = (n is None) if not 1 <= op <= 78 else n is not None and (n == op if op <= 75 else n < 256 ** {76: 1, 77: 2, 78: 4}[op])
                if n is None and 1 <= op <= 78: continue      # a push without data: not an instruction at all
                rep.step()
                k, got = call(Instruction, o, d)
                rep.traces += 1
                if legal:
                    if k == 'err': rep.fail('Instruction(%d, %s bytes) raised %s' % (op, n, got))
                    want = bytes([op])
                    if op > 75 and d is not None: want += n.to_bytes({76: 1, 77: 2, 78: 4}[op], 'little')
                    rep.equal(got.to_bytes(), want + (d or b''), 'Instruction(%d, %s bytes)' % (op, n))
                    rep.outcome('instruction')
                else:
                    if k == 'ok': rep.fail('Instruction(%d, %s bytes) accepted' % (op, n))
                    if not isinstance(got, BitforgeError): rep.fail('Instruction(%d, %s bytes) escaped with %s' % (op, n, type(got)))
                    rep.outcome('refused')
        for bad in (-1, 256, 257, 1000, -256):
            refused(rep, BitforgeError, 'Opcode(%d)' % bad, Opcode, bad)

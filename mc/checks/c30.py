"""C30: what operations, instructions and scripts say about themselves."""
from ..common import *
from ..ref import opcodes as R, tx as T
from ..ref.opcodes import *

ID = 'C30'
RULE = ('State: an operation number, a pair of them, an instruction (operation, data) or a sequence of instructions. What the library says about it (name, kind, value, size, order, '
        'minimal push, push only, structure, pay-to-script-hash form) is compared with the definitions of the Bitcoin rules, evaluated independently.')
BOUNDS = {
    'quick': 'all 256 operations, all 65536 ordered pairs; numbers -300..600 for every constructor; push lengths -2..1100, around 2^16 and 2^32; instructions: every push operation x every '
             'data length 0..300, all 256 one-byte values, around 2^16, data with every first and last byte in 14 lengths; scripts of 0..300 and up to 10001 instructions; all sequences of <= 4 of 24 instructions, every operation in and next to 6 push-only scripts; every single byte value '
             'of, and cut of and insertion in, 2 pay-to-script-hash scripts, 3 push forms',
    'thorough': 'also all sequences of 5 starting with 12 of the 24 instructions and all data lengths up to 5000',
}
KINDS = [b'\x00', b'\x51', b'\x60', b'\x4f', b'\x50', b'\x61', b'\x62', b'\x63', b'\x6a', b'\x76', b'\x87', b'\xa9', b'\xac', b'\xae', b'\xb1', b'\xff',
         b'\x01\x01', b'\x01\x11', b'\x14' + patterned(20, 3), b'\x4b' + patterned(75, 1), b'\x4c\x00', b'\x4c\x01\x81', b'\x4d\x01\x00\x07', b'\x4e\x14\x00\x00\x00' + patterned(20, 3)]


def minimal(op, d):
    if d is None: return True
    if d == b'': return False                    # OP_0
    if len(d) == 1 and (1 <= d[0] <= 16 or d[0] == 0x81): return False    # OP_1 .. OP_16, OP_1NEGATE
    if len(d) <= 75: return op == len(d)
    if len(d) <= 255: return op == 76
    if len(d) <= 65535: return op == 77
    return True


def shortest(n):
    return n if 1 <= n <= 75 else 76 if n <= 255 else 77 if n <= 65535 else 78


def instruction(op, d, rep):
    rep.state('instruction', op, d); rep.step()
    i = Instruction(Opcode(op), d)
    rep.equal((i.opcode.number, i.data, i.is_push(), i.is_minimal_push()), (op, d, 1 <= op <= 78, minimal(op, d)), 'Instruction(%d, %s)' % (op, short(d)))
    rep.outcome('minimal' if minimal(op, d) else 'not minimal')


def script(raw, rep):
    ops = list(T.script_ops(raw))
    rep.state('script', raw); rep.step()
    for s in (Script.from_bytes(raw), Script([Instruction(Opcode(o), d) for o, d in ops])):
        rep.equal(s.is_push_only(), all(o <= 96 for o, d in ops), 'is_push_only of %s' % short(raw.hex()))
        hashout = len(raw) == 23 and raw[:2] == b'\xa9\x14' and raw[-1:] == b'\x87'
        rep.equal(s.is_script_hash_out(), hashout, 'is_script_hash_out of %s' % short(raw.hex()))
        st = s.get_structure()
        rep.equal((type(st), tuple(x if x == 'PUSH' else x.number for x in st)), (tuple, tuple('PUSH' if 1 <= o <= 78 else o for o, d in ops)), 'get_structure of %s' % short(raw.hex()))
    rep.outcome('script hash' if hashout else 'push only' if all(o <= 96 for o, d in ops) else 'other script')


def cases(tier):
    t = tier == 'thorough'
    for lo in range(0, 256, 8): yield ('opcodes', lo); yield ('pairs', lo)
    yield ('numbers',)
    for lo in range(-2, 1100, 60): yield ('lengths', tuple(range(lo, min(lo + 60, 1101))))
    yield ('lengths', tuple(2 ** 16 + d for d in range(-40, 41)) + tuple(2 ** 32 + d for d in range(-3, 4)) + (2 ** 40, 2 ** 64))
    for n in range(0, 301 if not t else 5001, 20): yield ('data', tuple(range(n, n + 20)))
    yield ('data', (65534, 65535, 65536, 65537))
    for op in (1, 76, 77, 78): yield ('one byte', op)
    for lo in range(0, 256, 16): yield ('bytes', lo)
    for lo in range(0, 300, 20): yield ('long', tuple(range(lo, lo + 20)))
    yield ('long', (519, 520, 521, 1000, 1001, 4999, 10000, 10001))
    yield ('seq', ())
    for a in range(len(KINDS)):
        yield ('seq', (a,))
        for b in range(len(KINDS)):
            yield ('seq', (a, b))
            for c in range(len(KINDS)):
                yield ('seq', (a, b, c))
                if t and a % 2 == 0:
                    for d in range(len(KINDS)): yield ('seq', (a, b, c, d))
    for lo in range(0, 256, 16): yield ('only', lo)
    for i in range(5):
        for part in range(4): yield ('edit', i, part)


def edit_script(i):
    h = patterned(20, 7)
    return [b'\xa9\x14' + h + b'\x87', b'\xa9\x14' + b'\0' * 20 + b'\x87', b'\xa9\x4c\x14' + h + b'\x87', b'\xa9\x4d\x14\x00' + h + b'\x87', b'\xa9\x4e\x14\x00\x00\x00' + h + b'\x87'][i]


def run(case, rep):
    kind = case[0]
    if kind == 'opcodes':
        for n in range(case[1], case[1] + 8):
            rep.state('opcode', n); rep.step()
            o = Opcode(n)
            const, var = 1 <= n <= 75, 76 <= n <= 78
            number = n == 0 or 81 <= n <= 96
            rep.equal((o.number, o.bytes, o.is_push(), o.is_const_push(), o.is_var_push(), o.is_number()), (n, bytes([n]), const or var, const, var, number), 'Opcode(%d)' % n)
            if number: rep.equal(o.number_value(), 0 if n == 0 else n - 80, 'number_value of %d' % n)
            else: refused(rep, Opcode.Error, 'number_value of %d' % n, o.number_value)
            rep.equal(Opcode.data_length_max(o), n if const else {76: 255, 77: 65535, 78: 2 ** 32 - 1}[n] if var else 0, 'data_length_max of %d' % n)
            if var: rep.equal(Opcode.data_length_nbytes(o), {76: 1, 77: 2, 78: 4}[n], 'data_length_nbytes of %d' % n)
            else: refused(rep, Opcode.Error, 'data_length_nbytes of %d' % n, Opcode.data_length_nbytes, o)
            rep.check(isinstance(o.name, str) and isinstance(repr(o), str), 'name of %d', n)
            if not const and o.name.startswith('OP_') and not o.name.startswith('OP_UNKNOWN'): rep.equal(Opcode.from_name(o.name).number, n, 'from_name(%r)' % o.name)
            rep.outcome('operation')
            if not (const or var):
                instruction(n, None, rep)
                for d in (b'', b'\1', b'\0' * n): refused(rep, BitforgeError, 'Instruction(%d, %r)' % (n, d), Instruction, Opcode(n), d)
    elif kind == 'pairs':
        for a in range(case[1], case[1] + 8):
            for b in range(256):
                x, y = Opcode(a), Opcode(b)
                rep.step(); rep.state('pair', a, b)
                rep.equal((x == y, x != y, x < y, x <= y, x > y, x >= y), (a == b, a != b, a < b, a <= b, a > b, a >= b), 'comparisons of operations %d and %d' % (a, b))
                if a == b: rep.equal(hash(x), hash(y), 'hashes of operation %d' % a)
        rep.outcome('pairs compared')
    elif kind == 'numbers':
        for n in range(-300, 601):
            rep.state('number', n)
            agree(rep, 'Opcode(%d)' % n, n if 0 <= n <= 255 else None, Opcode, (n,), Opcode.Error, lambda o: o.number)
            agree(rep, 'Opcode.for_number(%d)' % n, (0 if n == 0 else 80 + n) if 0 <= n <= 16 else None, Opcode.for_number, (n,), (BitforgeError, ValueError), lambda o: o.number)
    elif kind == 'lengths':
        for n in case[1]:
            rep.state('length', n)
            agree(rep, 'Opcode.const_push_for(%d)' % n, n if 1 <= n <= 75 else None, Opcode.const_push_for, (n,), Opcode.Error, lambda o: o.number)
            agree(rep, 'Opcode.var_push_for(%d)' % n, None if not 1 <= n < 2 ** 32 else max(76, shortest(n)), Opcode.var_push_for, (n,), Opcode.Error, lambda o: o.number)
            agree(rep, 'Opcode.push_for(%d)' % n, None if not 1 <= n < 2 ** 32 else shortest(n), Opcode.push_for, (n,), Opcode.Error, lambda o: o.number)
    elif kind == 'data':
        for n in case[1]:
            fills = [patterned(n, n), b'\0' * n, b'\1' * n, b'\x81' * n] if n < 400 else [patterned(n, n)]
            for d in fills:
                for op in ([n] if 1 <= n <= 75 else []) + [o for o, top in ((76, 255), (77, 65535), (78, 2 ** 32)) if n <= top]: instruction(op, d, rep)
                if n:
                    i = Instruction.push_for(d)
                    rep.equal((i.opcode.number, i.data), (shortest(n), d), 'Instruction.push_for of %d bytes' % n)
    elif kind == 'one byte':
        for v in range(256): instruction(case[1], bytes([v]), rep)
    elif kind == 'bytes':                     # data starting or ending with every byte, of several lengths
        for b in range(case[1], case[1] + 16):
            for n in (2, 3, 4, 5, 20, 32, 33, 65, 71, 72, 75, 76, 255, 256):
                for d in {bytes([b]) * n, bytes([b]) + patterned(n - 1, 9), patterned(n - 1, 9) + bytes([b])}:
                    for op in ([n] if n <= 75 else []) + [o for o, top in ((76, 255), (77, 65535), (78, 2 ** 32)) if n <= top]: instruction(op, d, rep)
                    script(T.push(d), rep)
                    script(T.push(d) + b'\x76', rep)
            for h in (bytes([b]) + patterned(19, 9), patterned(19, 9) + bytes([b]), bytes([b]) * 20):
                script(b'\xa9\x14' + h + b'\x87', rep)
                script(b'\x76\xa9\x14' + h + b'\x88\xac', rep)
    elif kind == 'long':                      # long scripts: the last or the middle operation decides
        for n in case[1]:
            for k in (b'\x51', b'\x01\x51', b'\0', b'\x60'):
                script(k * n, rep)
                for odd in (b'\x61', b'\x50', b'\x4f'):
                    for i in {0, n // 2, n}: script(k * i + odd + k * (n - i), rep)
    elif kind == 'seq':
        base = b''.join(KINDS[i] for i in case[1])
        if not case[1]: script(b'', rep)
        for k in KINDS: script(base + k, rep)
    elif kind == 'only':
        for n in range(case[1], case[1] + 16):
            if 1 <= n <= 78: one = bytes([n]) + (patterned(n, n) if n < 76 else (2).to_bytes([1, 2, 4][n - 76], 'little') + b'ab')
            else: one = bytes([n])
            for a, b in ((b'', b''), (b'\x01\x05', b''), (b'', b'\x01\x05'), (b'\x00', b'\x60'), (b'\x4c\x01\xac', b'\x51\x52'), (b'\x4f', b'\x02\xac\xac')): script(a + one + b, rep)
    elif kind == 'edit':
        raw = edit_script(case[1])
        todo = [raw] + [raw[:i] + bytes([v]) + raw[i + 1:] for i in range(len(raw)) for v in range(256)]
        todo += [raw[:i] + raw[i + 1:] for i in range(len(raw))] + [raw[:i] for i in range(len(raw))] + [raw[:i] + bytes([v]) + raw[i:] for i in range(len(raw) + 1) for v in (0, 1, 0x14, 0x51, 0x61, 0x87, 0xa9)]
        for i, t in enumerate(todo):
            if i % 4 != case[2]: continue
            try: list(T.script_ops(t))
            except T.Bad: continue
            script(t, rep)

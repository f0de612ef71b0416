"""C15: the text form of scripts."""
from ..common import *
from ..ref import tx as T, opcodes

ID = 'C15'
RULE = ('State: a list of tokens. Scripts of named operations and pushes are written, compared with an independently made text, and read '
        'back. Token lists, well-formed or not, go through an independent reader of the grammar; the implementation must accept the same '
        'ones with the same meaning and refuse the others with a library error.')
BOUNDS = {
    'quick': 'every one of the 256 operations alone; every pair of named operations; all sequences of <= 3 of 20 instructions; every push '
             'length 1..300 and around 2^16 in each push form; data with every first and last byte in 13 lengths; scripts of 0..80 and up to 1001 instructions; all token lists of length <= 4 over 22 tokens (good and bad); all texts one '
             'character away from 8 texts; every size 0..300 for every push form against data of 0..4 bytes; 29 more odd data tokens x 8 sizes x 4 forms; 19 sizes with 1..8 leading zeros x 5 data lengths',
    'thorough': 'all sequences of <= 4 instructions; all token lists of length 5 over 14 tokens',
}
ASSUMPTIONS = ['a size with leading zeros may be refused or taken as the number it is; sizes in digits other than ASCII are not specified']
INS = [(0x00, None), (0x51, None), (0x60, None), (0x4f, None), (0x76, None), (0xa9, None), (0x88, None), (0xac, None), (0xae, None), (0x6a, None), (0xb1, None), (0xff, None),
       (1, b'\0'), (2, b'\x4c\xff'), (20, patterned(20, 1)), (75, patterned(75, 2)), (76, b''), (76, b'\xab'), (77, b'\x01\x02'), (78, b'')]
TOKENS = ['OP_DUP', 'OP_0', 'OP_1', 'OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA4', '1', '2', '0', '75', '76', '0x', '0x00', '0xabcd', '0xABCD', '0xzz', '0x0', 'ab', 'OP_FOO', 'op_dup', '-1', '0X00']
MORE = ['0x0x', '0x0x00', '0x000x', '0xab0x', '0x 00', '00', 'x00', '0xx00', '0x0x61', '0xzz0x61', '0x610x61', '0x00 0x00', "b'00'", '0x00,', '"0x00"', '0x-1', '0x+1', '0x00h', '0x00L', '0x0_0', '#00', '00x00', '-0x00', '+0x00', 'ox00', '0\u041500', '0x\u0660\u0661', '0xab\u200b', '0x\uff10\uff11']
NAME = {}
for _n, _v in sorted(opcodes.NAMED.items()): NAME.setdefault(_v, _n)
NAME[0], NAME[0x51] = 'OP_0', 'OP_1'


def write(ops):
    out = []
    for op, d in ops:
        if d is None: out.append(NAME[op])
        elif op <= 75: out += [str(len(d)), '0x' + d.hex()]
        else: out += [NAME[op], str(len(d)), '0x' + d.hex()]
    return ' '.join(out)


def size(t):
    return int(t) if t.isascii() and t.isdigit() and len(t) < 12 else None


def hexa(t):
    if not t.startswith('0x'): return None
    h = t[2:]
    if len(h) % 2 or any(c not in '0123456789abcdefABCDEF' for c in h): return None
    return bytes.fromhex(h)


def read(text):
    """[(op, data)] or None"""
    toks, out, i = text.split(), [], 0
    while i < len(toks):
        t = toks[i]; i += 1
        if t in opcodes.NAMED and not 76 <= opcodes.NAMED[t] <= 78:
            out.append((opcodes.NAMED[t], None))
            continue
        if t in opcodes.NAMED:
            op = opcodes.NAMED[t]
            if i + 2 > len(toks): return None
            n, d = size(toks[i]), hexa(toks[i + 1]); i += 2
            if n is None or d is None or n != len(d) or n >= 256 ** {76: 1, 77: 2, 78: 4}[op]: return None
        else:
            op = size(t)
            if op is None or not 1 <= op <= 75 or i >= len(toks): return None
            d = hexa(toks[i]); i += 1
            if d is None or len(d) != op: return None
        out.append((op, d))
    return tuple(out)


def view(s): return tuple((i.opcode.number, i.data) for i in s.instructions)


def both(ops, rep):
    ops = tuple(ops)
    rep.state(ops)
    rep.step(2)
    s = Script([Instruction(Opcode(op), d) for op, d in ops])
    want = write(ops)
    rep.equal(s.to_string(), want, 'to_string of %s' % short(ops))
    back = Script.from_string(want)
    rep.equal(view(back), ops, 'from_string of %s' % short(want))
    rep.check(back == s and back.to_bytes() == s.to_bytes() and hash(back) == hash(s), 'read back differs: %s', short(want))
    rep.equal(back.to_string(), want, 'written again')
    rep.equal([i.to_string() for i in s.instructions], [write([o]) for o in ops], 'instructions')
    rep.outcome('round trip')


def text(t, rep):
    rep.state(t)
    agree(rep, 'Script.from_string(%s)' % short(t), read(t), Script.from_string, (t,), BitforgeError, view)


def cases(tier):
    t = tier == 'thorough'
    yield ('table',)
    for lo in range(0, 256, 16): yield ('named', lo)
    for a in range(len(INS)):
        for n in (1, 2, 3) + ((4,) if t else ()): yield ('seq', a, n)
    for form in (0, 76, 77, 78):
        for lo in range(0, 300, 50): yield ('lengths', form, lo, lo + 50)
        for n in (520, 521, 65535, 65536, 70000): yield ('lengths', form, n, n + 1)
    for a in range(len(TOKENS)):
        yield ('tokens', (a,), 1)
        for b in range(len(TOKENS)): yield ('tokens', (a, b), 4)
    if t:
        for a in range(14):
            for b in range(14): yield ('tokens5', a, b)
    for i in range(len(EDIT)):
        for part in range(4): yield ('edits', i, part)
    for form in range(0, 4): yield ('sizes', form)
    yield ('space',)
    yield ('more',)
    yield ('zeros',)
    for lo in range(0, 256, 16): yield ('bytes', lo)
    for lo in range(0, 200 if t else 80, 10): yield ('long', tuple(range(lo, lo + 10)))
    yield ('long', (199, 200, 201, 202, 255, 256, 1000, 1001))


EDIT = ['OP_DUP', '1 0xab', 'OP_PUSHDATA1 1 0xab', 'OP_DUP OP_HASH160 2 0x0102 OP_EQUAL', 'OP_0 3 0x010203 OP_16', 'OP_RETURN 10 0x00010203040506070809', 'OP_PUSHDATA2 2 0xabcd', 'OP_PUSHDATA4 0 0x']


def run(case, rep):
    kind = case[0]
    if kind == 'table':
        for name, num in sorted(opcodes.NAMED.items()):
            rep.state(name)
            rep.step()
            rep.equal(getattr(opcode_module, name).number, num, name)
            rep.equal(Opcode.from_name(name).number, num, 'from_name(%s)' % name)
            rep.check(Opcode.from_name(name) == Opcode(num), '%s is not operation %d', name, num)
        for num in range(256):
            if 1 <= num <= 75: continue
            if num in NAME: rep.equal(Opcode(num).name, NAME[num], 'name of %d' % num)
            s = Script([Instruction(Opcode(num), b'' if 76 <= num <= 78 else None)])
            k, v = call(s.to_string)
            rep.check(k == 'ok', 'to_string of operation %d raised %s', num, v)
            if num not in NAME:      # written somehow, but never read as something else
                k, back = call(Script.from_string, v)
                if k == 'ok': rep.equal(view(back), ((num, None),), 'operation %d read from %s' % (num, v))
                else: rep.check(isinstance(back, BitforgeError), 'from_string(%s) escaped with %s', v, type(back))
        for n in range(0, 17): rep.equal(Opcode.for_number(n).number, 0 if n == 0 else 80 + n, 'for_number(%d)' % n)
        for num in range(256):
            o = Opcode(num)
            is_n = num == 0 or 81 <= num <= 96
            rep.equal((bool(o.is_number()), bool(o.is_push()), bool(o.is_const_push()), bool(o.is_var_push())), (is_n, 1 <= num <= 78, 1 <= num <= 75, 76 <= num <= 78), 'kind of %d' % num)
            if is_n: rep.equal(o.number_value(), num and num - 80, 'value of %d' % num)
            else: refused(rep, BitforgeError, 'value of operation %d' % num, o.number_value)
        for bad in ('OP_FOO', 'OP_', '', 'op_dup', 'DUP', 'OP_17', 'OP_VERIFYX', ' OP_DUP', 'OP_DUP ', 'Opcode', 'inspect', '_module', 'OP_dup', 'OP_PUSHDATA3', 'OP_NOP11', 'OP_NOP0'):
            refused(rep, BitforgeError, 'from_name(%r)' % bad, Opcode.from_name, bad)
    elif kind == 'named':
        named = sorted(v for v in NAME if not 76 <= v <= 78)
        for a in named:
            if not case[1] <= a < case[1] + 16: continue
            both([(a, None)], rep)
            for b in named: both([(a, None), (b, None)], rep)
            both([(a, None), (1, b'\x51'), (a, None)], rep)
        if case[1] == 0: both([], rep)
        for alias, num in (('OP_TRUE', 0x51), ('OP_FALSE', 0)): text(alias, rep)
    elif kind == 'seq':
        for rest in itertools.product(range(len(INS)), repeat=case[2] - 1): both([INS[i] for i in (case[1],) + rest], rep)
        rep.sample('sequences of %d starting with %s' % (case[2], INS[case[1]][0]))
    elif kind == 'lengths':
        for n in range(case[2], case[3]):
            form = case[1]
            d = patterned(n, 3) if n < 1000 else b'\xcd' * n
            if form == 0:
                if not 1 <= n <= 75:
                    text('%d 0x%s' % (n, d.hex()), rep)
                    continue
                both([(n, d)], rep)
            elif n < 256 ** {76: 1, 77: 2, 78: 4}[form]: both([(form, d)], rep)
            else: text('OP_PUSHDATA%d %d 0x%s' % ({76: 1, 77: 2, 78: 4}[form], n, d.hex()), rep)
    elif kind == 'tokens':
        _, prefix, n = case
        for k in range(len(prefix), n + 1):
            for rest in itertools.product(TOKENS, repeat=k - len(prefix)): text(' '.join([TOKENS[i] for i in prefix] + list(rest)), rep)
    elif kind == 'tokens5':
        for rest in itertools.product(TOKENS[:14], repeat=3): text(' '.join([TOKENS[case[1]], TOKENS[case[2]]] + list(rest)), rep)
    elif kind == 'edits':
        alphabet = '0123456789abcdefxABXOP_UHIS\u00e9 \t\n.-+'
        for i, t in enumerate(itertools.chain(edits(EDIT[case[1]], alphabet), decorated(EDIT[case[1]]))):
            if i % 4 != case[2]: continue
            toks = t.split()
            if any(x.isdigit() and (x[0] == '0' and len(x) > 1 or not x.isascii()) for x in toks): continue      # sizes with leading zeros or in other scripts: not specified
            if any(x in ('OP_VER', 'OP_VERIF', 'OP_VERNOTIF', 'OP_NOP2') for x in toks): continue
            text(t, rep)
    elif kind == 'sizes':
        for declared in range(0, 301):
            for have in range(0, 5):
                head = '' if case[1] == 0 else 'OP_PUSHDATA%d ' % (1, 2, 4)[case[1] - 1]
                text('%s%d 0x%s' % (head, declared, '5a' * have), rep)
        for declared in (65535, 65536, 65537, 2 ** 32 - 1, 2 ** 32, 2 ** 64, 10 ** 11): text('%s%d 0x%s' % (head, declared, '5a'), rep)
        for huge in ('1' * 50, '9' * 5000, '\u00b2', '\u00bd', '1.0', '1e1', '0b1', '0x1', '1_0', '+1', '-1'):
            refused(rep, BitforgeError, 'from_string with size %s' % ascii(huge[:20]), Script.from_string, '%s%s 0x%s' % (head, huge, '5a'))
    elif kind == 'bytes':                     # data starting or ending with every byte
        for b in range(case[1], case[1] + 16):
            for n in (1, 2, 3, 4, 8, 20, 33, 65, 75, 76, 77, 255, 256):
                for d in {bytes([b]) * n, bytes([b]) + patterned(n - 1, 9), patterned(n - 1, 9) + bytes([b])}:
                    if n <= 75: both([(n, d)], rep)
                    if n <= 4 or n > 75:
                        if n < 256: both([(76, d)], rep)
                        both([(77, d), (0x76, None)], rep)
                        both([(78, d)], rep)
    elif kind == 'long':
        for n in case[1]:
            both([(0x61, None)] * n, rep)
            both([INS[i * 7 % len(INS)] for i in range(n)], rep)
            both([(1, bytes([i % 256])) for i in range(n)], rep)
    elif kind == 'more':
        for tok in MORE + TOKENS:
            for n in range(0, 8):
                for head in ('', 'OP_PUSHDATA1 ', 'OP_PUSHDATA2 ', 'OP_PUSHDATA4 '):
                    for tail in ('', ' OP_DUP', ' 1 0x61'):
                        text('%s%d %s%s' % (head, n, tok, tail), rep)
            text(tok, rep)
            text('OP_DUP ' + tok, rep)
    elif kind == 'zeros':                     # sizes with leading zeros: refused, or the number they are
        for head in ('', 'OP_PUSHDATA1 ', 'OP_PUSHDATA2 ', 'OP_PUSHDATA4 '):
            for n in list(range(0, 12)) + [20, 33, 74, 75, 76, 77, 255]:
                for z in (1, 2, 3, 8):
                    for have in sorted({0, 1, max(0, n - 1), n, n + 1}):
                        for tail in ('', ' OP_DUP'):
                            t = '%s%s%d 0x%s%s' % (head, '0' * z, n, '5a' * have, tail)
                            rep.state(t); rep.step()
                            k, s = call(Script.from_string, t)
                            rep.traces += 1
                            if k == 'err': rep.check(isinstance(s, BitforgeError), 'from_string(%s) escaped with %s', short(t), type(s))
                            else: rep.equal(view(s), read(t), 'from_string(%s)' % short(t))
                            rep.outcome('refused' if k == 'err' else 'accepted')
    elif kind == 'space':
        for sep in (' ', '  ', '\t', '\n', ' \n\t '):
            for ops in ([(0x76, None), (0xa9, None), (2, b'\1\2'), (0x87, None)], [(77, b'\1\2'), (0x51, None)]):
                t = sep + write(ops).replace(' ', sep) + sep
                rep.equal(view(Script.from_string(t)), tuple(ops), 'from_string(%r)' % t)
        for t in ('', ' ', '\n'): rep.equal(view(Script.from_string(t)), (), 'from_string(%r)' % t)

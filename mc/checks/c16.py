"""C16: recognition of standard templates."""
from ..common import *
from ..spend import *
from ..ref import opcodes

ID = 'C16'
RULE = ('State: a sequence of instructions. All sequences over an alphabet of instruction kinds are built by four routes (bytes, text, '
        'instructions, compile); those of the exact form of a template must be recognized as it by every route, those without its '
        'structure must stay generic, and none may fail or change bytes. Templates made by their constructors are taken through '
        'every route and their parts compared with what was put in; so are those of every script recognized.')
BOUNDS = {
    'quick': 'all sequences of <= 4 of 18 instruction kinds and all of 5 of 11 kinds; signatures of every length 1..80, 255, 256, 520; redeem '
             'scripts of 10 sizes with 1..16 signatures; data of every length 1..80; every m of n <= 16 keys, compressed and uncompressed; '
             'every hash byte position; signatures, hashes, data and redeem scripts with every first and last byte; keys of 64 sizes (thorough: all); every one of the 256 operations in place of and next to every instruction of 9 templates; every part dropped, '
             'repeated, moved or swapped; script inputs of 1..16 signatures with one, two or (up to 4) all of them empty, short or pushed otherwise',
    'thorough': 'all sequences of 5 of 18 kinds and all of 6 of 9 kinds',
}
ASSUMPTIONS = ['Scripts with the structure of a template but pushes of unusual sizes, repeated or mismatched counts may be recognized or not.']
S = script_module
NAMED = set(opcodes.NAMED.values())
CLASSES = {n: getattr(S, n) for n in ('PayToPubkeyIn', 'PayToPubkeyOut', 'PayToScriptIn', 'PayToScriptOut', 'OpReturnOut', 'RedeemMultisig')}
PK, PK2, SIG, SIG2, H20 = pub(51), pub(52, False), patterned(71, 80), patterned(72, 81), patterned(20, 82)
RED = b'\x51\x21' + PK + b'\x51\xae'
KINDS = [b'\x00', b'\x51', b'\x52', b'\x60', b'\x4f', b'\x50', b'\x76', b'\xa9', b'\x88', b'\x87', b'\xac', b'\xae', b'\x6a', b'\xab',
         T.push(H20), T.push(PK), T.push(SIG), b'\x4c' + bytes([len(RED)]) + RED]
KINDS5 = [0, 1, 6, 7, 8, 9, 10, 11, 12, 14, 15]
KINDS6 = [0, 1, 2, 7, 10, 11, 14, 15, 16]


def expected(raw):
    """(set of allowed class names, None standing for generic)"""
    ops = T.script_ops(raw)
    P = [d is not None for _, d in ops]
    codes = [o for o, _ in ops]
    n = len(ops)
    ambiguous = lambda name, exact: {name} if exact else {name, None}
    if n == 2 and all(P):
        return ambiguous('PayToPubkeyIn', ec.sec_parse(ops[1][1]) is not None and len(ops[0][1]) >= 9)
    if n == 5 and codes[:2] == [0x76, 0xa9] and P[2] and codes[3:] == [0x88, 0xac] and sum(P) == 1:
        return ambiguous('PayToPubkeyOut', codes[2] == 20)
    if n >= 3 and codes[0] == 0 and all(P[1:]):
        return ambiguous('PayToScriptIn', n > 2 and len(ops[-1][1]) > 0 and parses(ops[-1][1]) and all(len(d) >= 9 for _, d in ops[1:-1]))
    if n == 3 and codes[0] == 0xa9 and P[1] and codes[2] == 0x87:
        return ambiguous('PayToScriptOut', codes[1] == 20)
    if n == 2 and codes[0] == 0x6a and P[1]:
        return ambiguous('OpReturnOut', 1 <= len(ops[1][1]) <= 80)
    num = lambda c: 0 if c == 0 else c - 80 if 81 <= c <= 96 else None
    if n >= 3 and codes[-1] == 0xae and not P[0] and not P[-2] and all(P[1:-2]) and num(codes[0]) is not None and num(codes[-2]) is not None:
        keys = [d for _, d in ops[1:-2]]
        return ambiguous('RedeemMultisig', num(codes[-2]) == len(keys) and 1 <= num(codes[0]) <= len(keys) and all(ec_ok(k) for k in keys))
    return {None}


@functools.lru_cache(None)
def ec_ok(k): return ec.sec_parse(k) is not None


def parses(b):
    try:
        T.script_ops(b)
        return True
    except T.Bad:
        return False


def kind_of(s):
    for n, c in CLASSES.items():
        if isinstance(s, c): return n
    return None


def routes(raw, text=True):
    ops = T.script_ops(raw)
    yield 'from_bytes', lambda: Script.from_bytes(raw)
    yield 'create', lambda: Script.create([Instruction(Opcode(o), d) for o, d in ops])
    yield 'compile', lambda: Script.compile([Opcode(o) if d is None else (Opcode(o), d) for o, d in ops])
    if text and all(d is not None or o in NAMED for o, d in ops): yield 'from_string', lambda: Script.from_string(Script.from_bytes(raw).to_string())


def recognize(raw, rep, text=True):
    rep.state(raw)
    want = expected(raw)
    seen = set()
    for how, f in routes(raw, text):
        rep.step()
        k, s = call(f)
        rep.traces += 1
        if k == 'err': rep.fail('%s of %s raised %s: %s' % (how, raw.hex(), type(s).__name__, str_of(s)))
        got = kind_of(s)
        if got not in want: rep.fail('%s of %s is %s, expected %s' % (how, raw.hex(), got, sorted(map(str, want))))
        if s.to_bytes() != raw: rep.fail('%s of %s changed its bytes to %s' % (how, raw.hex(), s.to_bytes().hex()))
        seen.add(got)
    rep.check(len(seen) == 1, '%s recognized differently by different routes: %s', raw.hex(), seen)
    rep.outcome(str(got))
    if got is not None: parts(raw, s, got, rep)
    return got


def parts(raw, s, name, rep):
    """The getters of a recognized script give the parts that are in its bytes (unreadable keys and scripts are refused)."""
    ops = T.script_ops(raw)
    d = [x for _, x in ops]
    num = lambda c: 0 if c == 0 else c - 80
    want = {'PayToPubkeyIn': lambda: {'get_signature': d[0], 'get_public_key': d[1]},
            'PayToPubkeyOut': lambda: {'get_address_hash': d[2]},
            'PayToScriptIn': lambda: {'get_signatures': d[1:-1], 'get_script': d[-1]},
            'PayToScriptOut': lambda: {'get_script_hash': d[1]},
            'OpReturnOut': lambda: {'get_data': d[1]},
            'RedeemMultisig': lambda: {'get_min_signatures': num(ops[0][0]), 'get_public_keys': d[1:-2]}}[name]()
    for getter, value in want.items():
        k, got = call(getattr(s, getter))
        what = '%s of %s' % (getter, raw.hex())
        if getter == 'get_script': ok = parses(value)
        elif getter == 'get_public_key': ok = ec_ok(value)
        elif getter == 'get_public_keys': ok = all(ec_ok(p) for p in value)
        else: ok = True
        if not ok:
            if k == 'ok': rep.fail('%s gives %r' % (what, got))
            if not isinstance(got, BitforgeError): rep.fail('%s escaped with %s: %s' % (what, type(got).__name__, str_of(got)))
            continue
        if k == 'err': rep.fail('%s raised %s: %s' % (what, type(got).__name__, str_of(got)))
        if getter in ('get_public_key', 'get_script'): got = got.to_bytes()
        if getter == 'get_public_keys': got = [p.to_bytes() for p in got]
        if getter == 'get_signatures': got = list(got)
        rep.equal(got, value, what)


def cases(tier):
    t = tier == 'thorough'
    for n in (0, 1, 2): yield ('seq', 'all', (), n)
    for a in range(len(KINDS)):
        yield ('seq', 'all', (a,), 2)
        for b in range(len(KINDS)):
            yield ('seq', 'all', (a, b), 2)
            if t: yield ('seq', 'all', (a, b), 3)
    for a in range(len(KINDS5)):
        for b in range(len(KINDS5)): yield ('seq', 'five', (a, b), 3)
    if t:
        for a in range(len(KINDS6)):
            for b in range(len(KINDS6)): yield ('seq', 'six', (a, b), 4)
    for n in list(range(1, 81)) + [255, 256, 257, 520]: yield ('pkin', n)
    yield ('pkout',)
    for i in range(len(redeems())): yield ('shin', i)
    yield ('shout',)
    for lo in range(1, 90, 10): yield ('ret', lo, lo + 10)
    for n in range(1, 17): yield ('multi', n)
    yield ('io',)
    for lo in range(0, 256, 16): yield ('bytes', lo)
    for k in (range(2, 256) if t else range(2, 256, 4)): yield ('size', 2 ** k + k)
    for n in range(1, 17): yield ('signs', n)
    for i in range(len(TEMPLATES())):
        for lo in range(0, 256, 32): yield ('subst', i, lo)
        yield ('order', i)


def TEMPLATES():
    return [p2pkh(H20), p2sh(RED), b'\x6a' + T.push(b'data'), T.push(SIG) + T.push(PK), b'\0' + T.push(SIG) + T.push(RED),
            b'\0' + T.push(SIG) + T.push(SIG2) + T.push(RED), RED, multisig(2, [PK, PK2, pub(53)]), multisig(1, [PK, PK2])]


def one(op):
    """The bytes of one instruction with that opcode."""
    if op == 0: return b'\0'
    if op <= 75: return bytes([op]) + patterned(op, 7)
    if op <= 78: return bytes([op, 2]) + b'\0' * {76: 0, 77: 1, 78: 3}[op] + b'hi'
    return bytes([op])


def split(raw):
    return [bytes([o]) if d is None else T.push(d) for o, d in T.script_ops(raw)]


def redeems():
    return [b'\x51', b'\x00', RED, multisig(2, [PK, PK2, pub(53)]), b'\x61' * 75, b'\x61' * 76, b'\x61' * 255, b'\x61' * 256, b'\x61' * 520, T.push(patterned(300, 3)) + b'\x75', p2pkh(H20), p2sh(b'\x51'), T.push(b'ab')]


def through(s, name, rep, parts):
    """A template made by its constructor, and the same bytes by every route, must give back its parts."""
    raw = s.to_bytes()
    rep.check(kind_of(s) == name, '%s.create gives %s', name, kind_of(s))
    want = {k: v for k, v in parts.items()}
    for how, f in [('create', lambda: s)] + list(routes(raw)):
        rep.step()
        x = f()
        if kind_of(x) != name: rep.fail('%s of a %s gives %s: %s' % (how, name, kind_of(x), short(raw.hex())))
        for getter, value in want.items():
            got = getattr(x, getter)()
            if getter in ('get_public_key', 'get_script'): got = got.to_bytes()
            if getter == 'get_public_keys': got = [p.to_bytes() for p in got]
            rep.equal(got, value, '%s.%s by %s' % (name, getter, how))
        rep.equal(x.to_bytes(), raw, 'bytes by ' + how)
    rep.state(raw)
    rep.outcome('parts of ' + name)


def run(case, rep):
    kind = case[0]
    if kind == 'seq':
        _, which, prefix, n = case
        ks = {'all': KINDS, 'five': [KINDS[i] for i in KINDS5], 'six': [KINDS[i] for i in KINDS6]}[which]
        for rest in itertools.product(ks, repeat=n):
            recognize(b''.join([ks[i] for i in prefix] + list(rest)), rep, len(prefix) + n <= 3)
        rep.sample('%s + %d more' % ([ks[i].hex()[:8] for i in prefix], n))
    elif kind == 'subst':                     # every operation in place of, and next to, every instruction of a template
        items = split(TEMPLATES()[case[1]])
        for op in range(case[2], case[2] + 32):
            for pos in range(len(items)):
                recognize(b''.join(items[:pos] + [one(op)] + items[pos + 1:]), rep)
                recognize(b''.join(items[:pos] + [one(op)] + items[pos:]), rep)
                if 76 <= op <= 78:           # the same data through a longer push, and no data at all
                    d = T.script_ops(items[pos])[0][1] or b''
                    for data in (d, b''):
                        recognize(b''.join(items[:pos] + [bytes([op]) + len(data).to_bytes({76: 1, 77: 2, 78: 4}[op], 'little') + data] + items[pos + 1:]), rep)
            recognize(b''.join(items) + one(op), rep)
    elif kind == 'signs':                     # script inputs where some of the signatures are empty, short, repeated, or pushed in another way
        n = case[1]
        odd = [b'\x4c\0', b'\x4d\0\0', b'\1\0', b'\1Q', b'\x4c' + bytes([len(SIG2)]) + SIG2]
        base = [T.push(patterned(9 + (i * 7 + n) % 65, i)) for i in range(n)]
        for red in (T.push(RED), b'\1Q', b'\x4c\0'):
            for i in range(n):
                for o in odd:
                    x = list(base); x[i] = o
                    recognize(b'\0' + b''.join(x) + red, rep, n < 6)
                    for j in range(i):
                        y = list(x); y[j] = o
                        recognize(b'\0' + b''.join(y) + red, rep, False)
                x = list(base); x[i] = base[0]
                recognize(b'\0' + b''.join(x) + red, rep, n < 6)
            if n <= 4:
                for combo in itertools.product(odd + base[:1], repeat=n): recognize(b'\0' + b''.join(combo) + red, rep, False)
            for o in odd: recognize(b'\0' + o * n + red, rep)
    elif kind == 'order':                     # parts dropped, repeated, swapped, moved
        items = split(TEMPLATES()[case[1]])
        n = len(items)
        for i in range(n):
            recognize(b''.join(items[:i] + items[i + 1:]), rep)
            recognize(b''.join(items[:i]), rep)
            recognize(b''.join(items[i:]), rep)
            for j in range(n):
                recognize(b''.join(items[:i] + [items[j]] + items[i:]), rep)
                recognize(b''.join(items[:i] + [items[j]] + items[i + 1:]), rep)
                rest = items[:i] + items[i + 1:]
                recognize(b''.join(rest[:j] + [items[i]] + rest[j:]), rep)
                if i < j:
                    x = list(items); x[i], x[j] = x[j], x[i]
                    recognize(b''.join(x), rep)
                    recognize(b''.join(items[:i] + items[i + 1:j] + items[j + 1:]), rep)
        recognize(b''.join(items[::-1]), rep)
        recognize(b''.join(items * 2), rep)
        for other in TEMPLATES(): recognize(b''.join(items) + other, rep)
    elif kind == 'pkin':
        sig = patterned(case[1], 90)
        for pk in (PK, PK2, pub(54), pub(N - 1, False)):
            s = S.PayToPubkeyIn.create(PublicKey.from_bytes(pk), sig)
            rep.equal(s.to_bytes(), T.push(sig) + T.push(pk), 'PayToPubkeyIn.create')
            through(s, 'PayToPubkeyIn', rep, {'get_public_key': pk, 'get_signature': sig})
    elif kind == 'pkout':
        for i in range(20):
            for v in (0, 1, 0x76, 0xff):
                h = bytearray(H20); h[i] = v; h = bytes(h)
                for net in NETNAMES:
                    s = S.PayToPubkeyOut.create(Address(h, NETS[net]))
                    rep.equal(s.to_bytes(), p2pkh(h), 'PayToPubkeyOut.create')
                    through(s, 'PayToPubkeyOut', rep, {'get_address_hash': h})
    elif kind == 'shin':
        red = redeems()[case[1]]
        for n in range(1, 17):
            sigs = [patterned(9 + (i * 7 + n) % 65, i) for i in range(n)]
            s = S.PayToScriptIn.create(Script.from_bytes(red), sigs)
            rep.equal(s.to_bytes(), b'\0' + b''.join(map(T.push, sigs)) + T.push(red), 'PayToScriptIn.create')
            through(s, 'PayToScriptIn', rep, {'get_script': red, 'get_signatures': sigs})
    elif kind == 'shout':
        for red in redeems() + [b'']:
            s = S.PayToScriptOut.create(Script.from_bytes(red))
            rep.equal(s.to_bytes(), p2sh(red), 'PayToScriptOut.create')
            through(s, 'PayToScriptOut', rep, {'get_script_hash': B.hash160(red)})
    elif kind == 'ret':
        for n in range(case[1], case[2]):
            for d in (patterned(n, 4), b'\0' * n, b'\x6a' * n):
                s = S.OpReturnOut.create(d)
                rep.equal(s.to_bytes(), b'\x6a' + T.push(d), 'OpReturnOut.create')
                if n <= 80: through(s, 'OpReturnOut', rep, {'get_data': d})
    elif kind == 'multi':
        n = case[1]
        pks = [pub(500 + i, i % 3 != 2) for i in range(n)]
        for m in range(1, n + 1):
            for ks in (pks, pks[::-1]) + ((pks[:1] * n, pks[:-1] + pks[:1], pks[:1] + pks[:-1], [pks[i // 2] for i in range(n)]) if n > 1 else ()):     # with repeated keys, too
                s = S.RedeemMultisig.create([PublicKey.from_bytes(p) for p in ks], m)
                rep.equal(s.to_bytes(), multisig(m, ks), 'RedeemMultisig.create')
                through(s, 'RedeemMultisig', rep, {'get_min_signatures': m, 'get_public_keys': ks})
    elif kind == 'bytes':                     # parts that start or end with every byte
        for b in range(case[1], case[1] + 16):
            like = lambda n: sorted({bytes([b]) * n, bytes([b]) + patterned(n - 1, 9), patterned(n - 1, 9) + bytes([b])})
            for n in (9, 70, 71, 72, 73):
                for sig in like(n):
                    through(S.PayToPubkeyIn.create(PublicKey.from_bytes(PK), sig), 'PayToPubkeyIn', rep, {'get_public_key': PK, 'get_signature': sig})
                    s = S.PayToScriptIn.create(Script.from_bytes(RED), [SIG, sig])
                    rep.equal(s.to_bytes(), b'\0' + T.push(SIG) + T.push(sig) + T.push(RED), 'PayToScriptIn.create')
                    through(s, 'PayToScriptIn', rep, {'get_script': RED, 'get_signatures': [SIG, sig]})
            for h in like(20):
                through(S.PayToPubkeyOut.create(Address(h)), 'PayToPubkeyOut', rep, {'get_address_hash': h})
                s = Script.from_bytes(b'\xa9\x14' + h + b'\x87')
                through(s, 'PayToScriptOut', rep, {'get_script_hash': h})
            for n in (1, 2, 4, 20, 21, 33, 65, 75, 76, 80):
                for d in like(n): through(S.OpReturnOut.create(d), 'OpReturnOut', rep, {'get_data': d})
            for red in (one(b), b'\x51' + one(b), one(b) + b'\xae'):        # a redeem script with every first and last operation
                if not parses(red): continue
                s = S.PayToScriptIn.create(Script.from_bytes(red), [SIG])
                rep.equal(s.to_bytes(), b'\0' + T.push(SIG) + T.push(red), 'PayToScriptIn.create')
                through(s, 'PayToScriptIn', rep, {'get_script': red, 'get_signatures': [SIG]})
                through(S.PayToScriptOut.create(Script.from_bytes(red)), 'PayToScriptOut', rep, {'get_script_hash': B.hash160(red)})
    elif kind == 'size':                      # keys of every size
        for c in (True, False):
            p = pub(case[1], c)
            through(S.PayToPubkeyIn.create(PublicKey.from_bytes(p), SIG), 'PayToPubkeyIn', rep, {'get_public_key': p, 'get_signature': SIG})
            for ks in ([p], [PK, p], [p, PK2, PK]):
                s = S.RedeemMultisig.create([PublicKey.from_bytes(x) for x in ks], 1)
                rep.equal(s.to_bytes(), multisig(1, ks), 'RedeemMultisig.create')
                through(s, 'RedeemMultisig', rep, {'get_min_signatures': 1, 'get_public_keys': ks})
    elif kind == 'io':
        txid = patterned(32, 5).hex()
        for raw in (T.push(SIG) + T.push(PK), b'\0' + T.push(SIG) + T.push(RED), b'', b'\x51', p2pkh(H20), p2sh(RED), b'\x6a\x01a', RED, b'\0' + T.push(SIG) + T.push(SIG2) + T.push(RED),
                    T.push(SIG), b'\x00\x51', b'\xac', T.push(SIG) + b'\x51', b'\x51' + T.push(SIG)):
            name = kind_of(Script.from_bytes(raw))
            for given in (Script.from_bytes(raw), Script(Script.from_bytes(raw).instructions)):
                rep.step(2)
                i = Input.create(txid, 1, given, 2)
                rep.equal(vin(i), (txid, 1, raw, 2), 'Input.create(%s)' % raw.hex())
                rep.equal(type(i), {'PayToPubkeyIn': AddressInput, 'PayToScriptIn': ScriptInput}.get(name, Input), 'Input.create(%s)' % raw.hex())
                o = Output.create(3, given)
                rep.equal(vout(o), (3, raw), 'Output.create(%s)' % raw.hex())
                rep.equal(type(o), {'PayToPubkeyOut': AddressOutput, 'PayToScriptOut': ScriptOutput, 'OpReturnOut': DataOutput}.get(name, Output), 'Output.create(%s)' % raw.hex())
                rep.check(kind_of(i.script) == name and kind_of(o.script) == name, 'script of an input or output of %s', raw.hex())

"""C24: objects are immutable values."""
from ..common import *
from ..spend import p2pkh, p2sh, multisig, T
from ..ref import bip32

ID = 'C24'
RULE = ('State: an ordered pair of objects, or an object and an attempt to change it. A pool holds, for every class, objects of contents that differ in exactly '
        'one component, each built in every way the library offers; equality, inequality, hashes and membership in sets and dictionaries of all ordered pairs '
        'are compared with equality of the contents that were asked for. Then every way to change an object is tried: assigning and deleting every field and '
        'element, changing the data it was built from, and changing everything its methods return; its full observable content must stay the same.')
BOUNDS = {
    'quick': '710 objects of 11 classes (~130 contents, 2 to 8 ways each): all 504100 ordered pairs; all fields of all objects; 36 mutable sources; all pairs of the 256 operations, alone and in instructions and scripts; 38 fields with every bit (or byte) changed, or of every size, each also written and read again; the results of all methods without arguments of all objects, to depth 4',
    'thorough': 'additionally, all pairs again after every method without arguments was called on both objects',
}
_pool = None
_used = set()


def ways():
    """(content, builder) for every object of the pool."""
    out = []
    def add(content, *builders):
        for b in builders: out.append((content, b))
    nets = [(n, NETS[n]) for n in NETNAMES]
    secrets = [1, 2, N - 1]
    for s in secrets:
        for name, net in nets:
            for comp in (True, False):
                wif = B.b58cenc(bytes([WIF[name]]) + s.to_bytes(32, 'big') + (b'\1' if comp else b''))
                add(('priv', s, name, comp), lambda s=s, net=net, comp=comp: PrivateKey(s, net, comp), lambda s=s, name=name, comp=comp: PrivateKey(s, name, comp), lambda s=s, net=net, comp=comp: PrivateKey.from_bytes(s.to_bytes(32, 'big'), net, comp),
                    lambda s=s, net=net, comp=comp: PrivateKey.from_hex('%064x' % s, net, comp), lambda wif=wif: PrivateKey.from_wif(wif), lambda s=s, net=net, comp=comp: PrivateKey.from_bytes(bytearray(s.to_bytes(32, 'big')), net, comp))
                pt, raw = ec.mul_g(s), pub(s, comp)
                add(('pub', s, name, comp), lambda pt=pt, net=net, comp=comp: PublicKey(pt, net, comp), lambda pt=pt, net=net, comp=comp: PublicKey(list(pt), net, comp), lambda raw=raw, net=net: PublicKey.from_bytes(raw, net),
                    lambda raw=raw, name=name: PublicKey.from_hex(raw.hex(), name), lambda s=s, net=net, comp=comp: PrivateKey(s, net, comp).to_public_key())
                h = B.hash160(raw)
                add(('addr', h, name, 'pubkey'), lambda raw=raw, net=net: PublicKey.from_bytes(raw, net).to_address(), lambda h=h, net=net: Address(h, net), lambda h=h, name=name: Address(bytearray(h), name, Address.Type.PublicKey),
                    lambda h=h, name=name: Address.from_string(B.b58cenc(bytes([VERSION[name, 'pubkey']]) + h)))
    for h in (b'\0' * 20, patterned(20, 1), patterned(19, 1) + b'\0'):
        for name, net in nets:
            for kind, ty in (('pubkey', Address.Type.PublicKey), ('script', Address.Type.Script)):
                raw = bytes([VERSION[name, kind]]) + h
                add(('addr', h, name, kind), lambda h=h, net=net, ty=ty: Address(h, net, ty), lambda raw=raw: Address.from_bytes(raw), lambda raw=raw: Address.from_bytes(bytearray(raw)), lambda raw=raw: Address.from_hex(raw.hex()), lambda raw=raw: Address.from_string(B.b58cenc(raw)))
    red = b'\x51\x52\x93'
    add(('addr', B.hash160(red), 'livenet', 'script'), lambda: Address.from_script(Script.from_bytes(red)), lambda: Address(B.hash160(red), networks.livenet, Address.Type.Script))
    # instructions
    for op, data in [(0, None), (0x51, None), (0x52, None), (0xff, None), (0xba, None), (1, b'a'), (1, b'b'), (2, b'ab'), (0x4c, b'a'), (0x4d, b'a'), (0x4e, b'a'), (0x4c, b''), (0x4d, b''), (1, b'\0')]:
        add(('ins', op, data), lambda op=op, data=data: Instruction(Opcode(op), data), lambda op=op, data=data: Instruction(Opcode(op), None if data is None else bytearray(data)),
            lambda op=op, data=data: Script.from_bytes(T_one(op, data)).instructions[0])
    # scripts
    k1, k2 = pub(1), pub(2)
    scripts = [b'', b'\x51', b'\x52', b'\x00', b'\x01a', b'\x4c\x01a', b'\x4d\x01\0a', b'\x51\x52', b'\x52\x51', b'\x01\x51', p2pkh(patterned(20, 1)), p2pkh(b'\0' * 20), p2sh(red), b'\x6a\x02ab', b'\x6a\x02ac', multisig(1, [k1, k2]), multisig(2, [k1, k2]), multisig(1, [k2, k1]),
               T.push(patterned(71, 1)) + T.push(k1), T.push(patterned(71, 2)) + T.push(k1), b'\0' + T.push(patterned(71, 1)) + T.push(red), b'\xff', b'\xba']
    for raw in scripts:
        add(('script', raw), lambda raw=raw: Script.from_bytes(raw), lambda raw=raw: Script.from_bytes(bytearray(raw)), lambda raw=raw: Script(list(Script.from_bytes(raw).instructions)), lambda raw=raw: Script(iter(Script.from_bytes(raw).instructions)),
            lambda raw=raw: Script.create(Script.from_bytes(raw).instructions))
        if raw not in (b'\xff', b'\xba'): add(('script', raw), lambda raw=raw: Script.from_string(Script.from_bytes(raw).to_string()))
    sm = script_module
    add(('script', p2pkh(patterned(20, 1))), lambda: sm.PayToPubkeyOut.create(Address(patterned(20, 1))))
    add(('script', p2sh(red)), lambda: sm.PayToScriptOut.create(Script.from_bytes(red)))
    add(('script', multisig(2, [k1, k2])), lambda: sm.RedeemMultisig.create([PublicKey.from_bytes(k1), PublicKey.from_bytes(k2)], 2))
    add(('script', b'\x6a\x02ab'), lambda: sm.OpReturnOut.create(b'ab'))
    # inputs and outputs
    t1, t2 = patterned(32, 1).hex(), patterned(32, 2).hex()
    S = lambda raw: Script.from_bytes(raw)
    for txid, idx, raw, seq in [(t1, 0, b'', 0xffffffff), (t1, 1, b'', 0xffffffff), (t2, 0, b'', 0xffffffff), (t1, 0, b'\x51', 0xffffffff), (t1, 0, b'', 0), (t1, 0, p2pkh(patterned(20, 1)), 0xffffffff), (t1, 0, p2pkh(patterned(20, 1)), 5),
                                (t1, 0, multisig(1, [k1, k2]), 0xffffffff), (t1, 0, multisig(2, [k1, k2]), 0xffffffff), (t1, 0xffffffff, b'', 0xffffffff), (t1, 0, T.push(patterned(71, 1)) + T.push(k1), 0xffffffff)]:
        ser = T.ser_in((txid, idx, raw, seq))
        c = ('in', txid, idx, raw, seq)
        add(c, lambda a=(txid, idx, raw, seq): Input(a[0], a[1], S(a[2]), a[3]), lambda ser=ser: Input.from_bytes(ser), lambda ser=ser: Input.from_hex(ser.hex()), lambda a=(txid, idx, raw, seq): Input.create(a[0], a[1], S(a[2]), a[3]),
            lambda a=(txid, idx, raw, seq): Input(a[0], a[1], S(b'\x55'), a[3]).replace_script(S(a[2])), lambda ser=ser: Input.from_bytes(bytearray(ser)))
        if raw == b'': add(c, lambda a=(txid, idx, raw, seq): Input(a[0], a[1], S(b'\x51'), a[3]).remove_script())
        if raw[:2] == b'\x76\xa9': add(c, lambda a=(txid, idx, raw, seq): AddressInput.create(a[0], a[1], Address(patterned(20, 1)), a[3]))
        if raw[-1:] == b'\xae': add(c, lambda a=(txid, idx, raw, seq): MultisigInput.create(a[0], a[1], [PublicKey.from_bytes(k1), PublicKey.from_bytes(k2)], a[2][0] - 0x50, a[3]), lambda a=(txid, idx, raw, seq): ScriptInput.create(a[0], a[1], S(a[2]), a[3]))
    for amount, raw in [(0, b''), (1, b''), (0, b'\x51'), (5, p2pkh(patterned(20, 1))), (6, p2pkh(patterned(20, 1))), (5, p2pkh(b'\0' * 20)), (5, p2sh(red)), (0, b'\x6a\x02ab'), (2 ** 63, b'\x51'), (5, p2sh(multisig(1, [k1, k2])))]:
        ser = T.ser_out((amount, raw))
        c = ('out', amount, raw)
        add(c, lambda a=(amount, raw): Output(a[0], S(a[1])), lambda ser=ser: Output.from_bytes(ser), lambda ser=ser: Output.from_hex(ser.hex()), lambda a=(amount, raw): Output.create(a[0], S(a[1])), lambda ser=ser: Output.from_bytes(bytearray(ser)))
        if raw == p2pkh(patterned(20, 1)): add(c, lambda amount=amount: AddressOutput.create(amount, Address(patterned(20, 1))))
        if raw == p2sh(red): add(c, lambda amount=amount: ScriptOutput.create(amount, S(red)), lambda amount=amount: AddressOutput.create(amount, Address(B.hash160(red), networks.livenet, Address.Type.Script)))
        if raw[:1] == b'\x6a': add(c, lambda: DataOutput.create(b'ab'))
        if raw == p2sh(multisig(1, [k1, k2])): add(c, lambda amount=amount: MultisigOutput.create(amount, [PublicKey.from_bytes(k1), PublicKey.from_bytes(k2)], 1))
    i1, i2, i3 = (t1, 0, b'', 0xffffffff), (t1, 1, b'\x51', 3), (t2, 0, p2pkh(patterned(20, 1)), 0xffffffff)
    o1, o2 = (5, b'\x51'), (5, b'\x52')
    for ver, ins, outs, lock in [(1, (i1,), (o1,), 0), (2, (i1,), (o1,), 0), (1, (i1,), (o1,), 1), (1, (i2,), (o1,), 0), (1, (i1,), (o2,), 0), (1, (i1, i2), (o1,), 0), (1, (i2, i1), (o1,), 0), (1, (i1,), (o1, o2), 0), (1, (i1,), (o2, o1), 0), (1, (i1,), (o1, o1), 0), (1, (i3,), (o1,), 0)]:
        ser = T.ser((ver, ins, outs, lock))
        mk = lambda seq, ver=ver, ins=ins, outs=outs, lock=lock: Transaction(seq(Input(a, b, S(c), d) for a, b, c, d in ins), seq(Output(a, S(b)) for a, b in outs), lock, ver)
        add(('tx', ver, ins, outs, lock), lambda mk=mk: mk(list), lambda mk=mk: mk(tuple), lambda mk=mk: mk(iter), lambda ser=ser: Transaction.from_bytes(ser), lambda ser=ser: Transaction.from_hex(ser.hex()), lambda ser=ser: Transaction.from_bytes(bytearray(ser)),
            lambda ser=ser: Transaction.from_bytes(ser).replace_inputs(Transaction.from_bytes(ser).inputs))
    # extended keys: equal contents, and contents that differ in one component
    seed = patterned(32, 3)
    m = bip32.master(seed)
    for node, path in ((m, ()), (m.child(0), (0,)), (m.child(1), (1,)), (m.child(2 ** 31), (2 ** 31,))):
        add(('hdpriv', node.text()), lambda path=path: walk(HDPrivateKey.from_seed(seed), path), lambda node=node: HDPrivateKey.from_string(node.text()))
        pubs = [lambda path=path: walk(HDPrivateKey.from_seed(seed), path).to_hd_public_key(), lambda node=node: HDPublicKey.from_string(node.neuter().text()), lambda path=path: HDPublicKey.from_hd_private_key(walk(HDPrivateKey.from_seed(seed), path))]
        if path and path[0] < 2 ** 31: pubs.append(lambda path=path: walk(HDPrivateKey.from_seed(seed).to_hd_public_key(), path))
        add(('hdpub', node.neuter().text()), *pubs)
    chain = patterned(32, 4)
    for s, ch, d, i, p, name in [(5, chain, 0, 0, 0, 'livenet'), (6, chain, 0, 0, 0, 'livenet'), (5, chain[::-1], 0, 0, 0, 'livenet'), (5, chain, 1, 0, 0, 'livenet'), (5, chain, 0, 1, 0, 'livenet'), (5, chain, 0, 0, 1, 'livenet'), (5, chain, 0, 0, 0, 'testnet')]:
        node = bip32.Node(s, ec.mul_g(s), ch, d, i, p.to_bytes(4, 'big'), name)
        net = NETS[name]
        add(('hdpriv', node.text()), lambda a=(s, ch, d, i, p, net): HDPrivateKey(PrivateKey(a[0], a[5]), a[1], a[2], a[3], a[4], a[5]), lambda a=(s, ch, d, i, p, net): HDPrivateKey(PrivateKey(a[0], a[5]), bytearray(a[1]), a[2], a[3], a[4], a[5]), lambda node=node: HDPrivateKey.from_string(node.text()))
        add(('hdpub', node.neuter().text()), lambda a=(s, ch, d, i, p, net): HDPublicKey(PublicKey.from_bytes(pub(a[0]), a[5]), a[1], a[2], a[3], a[4], a[5]), lambda a=(s, ch, d, i, p, net): HDPublicKey(PublicKey.from_bytes(pub(a[0]), a[5]), bytearray(a[1]), a[2], a[3], a[4], a[5]),
            lambda node=node: HDPublicKey.from_string(node.neuter().text()))
    for n in (0, 1, 75, 76, 0x51, 255): add(('opcode', n), lambda n=n: Opcode(n), lambda n=n: Script.from_bytes(T_one(n, b'a' * n if 0 < n < 76 else b'a' if n == 76 else None)).instructions[0].opcode)
    return out


def T_one(op, data):
    if data is None: return bytes([op])
    if op < 76: return bytes([op]) + data
    return bytes([op]) + len(data).to_bytes({76: 1, 77: 2, 78: 4}[op], 'little') + data


def walk(node, path):
    for i in path: node = node.derive(i)
    return node


WAYS = ways()


def pool():
    global _pool
    if _pool is None: _pool = [(c, b()) for c, b in WAYS]
    return _pool


def setup(tier): pool()


def cases(tier):
    n = len(WAYS)
    for i in range(n): yield ('row', i)
    if tier == 'thorough':
        for i in range(n): yield ('row used', i)
    for lo in range(0, 256, 8): yield ('opcodes', lo)
    for k in NEAR: yield ('near', k)
    for i in range(n): yield ('frozen', i)
    for i in range(n): yield ('results', i)
    for name in sorted(SOURCES): yield ('source', name)
    yield ('containers',)


def snap(o):
    """Everything observable about an object."""
    out = [repr(o), hash(o)]
    for m in ('to_bytes', 'to_hex', 'to_string', 'to_wif', 'get_id', 'get_structure'):
        f = getattr(o, m, None)
        if f is not None:
            kind, v = call(f)
            out.append((m, v if kind == 'ok' else type(v)))
    for f in getattr(o, '_fields', ()): out.append((f, repr(getattr(o, f))))
    return out


NOARGS = {
    'priv': ['to_wif', 'to_bytes', 'to_hex', 'to_public_key', 'to_address'], 'pub': ['to_bytes', 'to_hex', 'to_address'], 'addr': ['to_bytes', 'to_string', 'to_hex'],
    'ins': ['to_bytes', 'to_hex', 'to_string', 'is_push', 'is_minimal_push'],
    'script': ['to_bytes', 'to_hex', 'to_hash', 'to_string', 'get_structure', 'is_push_only', 'is_script_hash_out', 'get_public_key', 'get_signature', 'get_address_hash', 'get_script', 'get_signatures', 'get_script_hash', 'get_data', 'get_min_signatures', 'get_public_keys'],
    'in': ['to_bytes', 'to_hex', 'remove_script'], 'out': ['to_bytes', 'to_hex'], 'tx': ['to_bytes', 'to_hex', 'get_id_bytes', 'get_id'],
    'hdpriv': ['to_string', 'to_hd_public_key', 'to_private_key', 'to_public_key'], 'hdpub': ['to_string', 'to_public_key'], 'opcode': [],
}


def spoil(v, depth=4):
    """Change whatever can be changed in a value."""
    if isinstance(v, bytearray):
        for i in range(len(v)): v[i] ^= 0xff
        v.extend(b'spoiled')
    elif isinstance(v, list):
        for x in list(v):
            if depth: spoil(x, depth - 1)
        v.reverse(); v.append(None); del v[:1]
    elif isinstance(v, (dict, set)):
        v.clear()
    elif isinstance(v, tuple) and depth:
        for x in v: spoil(x, depth - 1)


def run(case, rep):
    kind = case[0]
    if kind == 'opcodes': return opcodes_row(rep, case[1])
    if kind == 'near': return near(rep, case[1])
    P = pool()
    if kind in ('row', 'row used'):
        ca, a = P[case[1]]
        if kind == 'row used' and id(P) not in _used:
            _used.add(id(P))
            for c, o in P:
                for m in NOARGS[c[0]]:
                    if hasattr(o, m): call(getattr(o, m))
        rep.check(hash(a) == hash(a), 'hash of %r changes', a)
        for j, (cb, b) in enumerate(P):
            rep.step()
            rep.traces += 1
            rep.state(kind, case[1], j)
            same = ca == cb
            k, eq = call(lambda: a == b)
            k2, ne = call(lambda: a != b)
            if k == 'err' or k2 == 'err': rep.fail('comparing %s with %s raises %r %r' % (short(a), short(b), eq, ne))
            if bool(eq) != same: rep.fail('%s == %s is %s (contents %s and %s)' % (short(a), short(b), eq, short(ca), short(cb)))
            if bool(ne) == same: rep.fail('%s != %s is %s' % (short(a), short(b), ne))
            if same and hash(a) != hash(b): rep.fail('%s and %s are equal, but their hashes are not' % (short(a), short(b)))
            if (b in {a}) != same or ({a: 1}.get(b) == 1) != same or len({a, b}) != (1 if same else 2): rep.fail('%s and %s in a set or dictionary' % (short(a), short(b)))
            rep.outcome('equal' if same else 'different')
        for other in (None, 0, 1, 'x', b'x', object(), (), [], {}, 1.5, True, PrivateKey, a.__class__):
            k, eq = call(lambda: a == other)
            if k == 'err' or eq: rep.fail('%s == %r: %r' % (short(a), other, eq))
            k, ne = call(lambda: a != other)
            if k == 'err' or not ne: rep.fail('%s != %r: %r' % (short(a), other, ne))
        if case[1] % 40 == 0: rep.sample('%s against all' % short(ca))
    elif kind == 'frozen':
        c, _ = P[case[1]]
        if c[0] == 'opcode': return
        o = WAYS[case[1]][1]()
        before = snap(o)
        fields = list(o._fields) if hasattr(o, '_fields') else []
        if c[0] == 'priv': must = ['secret', 'network', 'compressed']
        else: must = {'pub': ['pair', 'network', 'compressed'], 'addr': ['phash', 'network', 'type'], 'ins': ['opcode', 'data'], 'script': ['instructions'], 'in': ['tx_id', 'txo_index', 'script', 'seq_number'], 'out': ['amount', 'script'],
                      'tx': ['inputs', 'outputs', 'lock_time', 'version'], 'hdpriv': ['privkey', 'chain', 'depth', 'index', 'parent', 'network', 'fingerprint'], 'hdpub': ['pubkey', 'chain', 'depth', 'index', 'parent', 'network', 'fingerprint']}[c[0]]
        for f in sorted(set(fields) | set(must)):
            value = getattr(o, f)
            for new in (None, 0, 7, b'x', value):
                rep.step()
                k, e = call(setattr, o, f, new)
                if k == 'ok': rep.fail('the field %s of %s can be reassigned' % (f, short(before[0])))
            k, e = call(delattr, o, f)
            if k == 'ok': rep.fail('the field %s of %s can be deleted' % (f, short(before[0])))
            k, e = call(lambda: value.__setitem__(0, None))
            if k == 'ok': rep.fail('the field %s of %s can be changed' % (f, short(before[0])))
            if isinstance(value, (bytearray, list, dict, set)): rep.fail('the field %s of %s is a %s' % (f, short(before[0]), type(value).__name__))
            rep.traces += 1
        for i in range(len(must)):
            k, e = call(lambda: o.__setitem__(i, None))
            if k == 'ok': rep.fail('element %d of %s can be reassigned' % (i, short(before[0])))
        rep.equal(snap(o), before, 'the content of %s after attempts to change it' % short(before[0]))
        rep.state('frozen', case[1])
        rep.outcome('frozen')
    elif kind == 'results':
        c, _ = P[case[1]]
        o = WAYS[case[1]][1]()
        before = snap(o)
        twin = pool()[case[1]][1]
        for m in NOARGS[c[0]]:
            f = getattr(o, m, None)
            if f is None: continue
            k, v = call(f)
            rep.step()
            if k == 'ok': spoil(v)
            rep.equal(snap(o), before, '%s after changing what %s() returned' % (short(before[0]), m))
            k2, v2 = call(f)
            want_k, want = call(getattr(WAYS[case[1]][1](), m))
            if (k2, repr(v2)) != (want_k, repr(want)): rep.fail('%s: %s() gives %s after its first result was changed, expected %s' % (short(before[0]), m, short(v2), short(want)))
        for f in getattr(o, '_fields', ()): spoil(getattr(o, f))
        rep.equal(snap(o), before, '%s after changing its fields' % short(before[0]))
        if o != twin: rep.fail('%s is not equal to its twin any more' % short(before[0]))
        rep.state('results', case[1])
        rep.outcome('unaffected')
    elif kind == 'source':
        make, source = SOURCES[case[1]]()
        was = repr(source)
        o = make(source)
        before = snap(o)
        rep.step()
        if repr(source) != was: rep.fail('%s changed the data it was given: %s to %s' % (case[1], short(was), short(source)))
        spoil(source)
        rep.equal(snap(o), before, '%s after changing the data it was built from' % case[1])
        rep.state('source', case[1])
        rep.outcome('unaffected')
    else:
        d, s = {}, set()
        for c, o in P: d.setdefault(o, c); s.add(o)
        rep.equal(len(s), len({c for c, _ in P}), 'the number of different objects')
        for c, o in P: rep.equal(d[o], c, 'the dictionary entry of %s' % short(o)); rep.step()


def differ(rep, a, b, what, same=False):
    rep.step(); rep.traces += 1
    k, v = call(lambda: (bool(a == b), bool(a != b), b in {a}, len({a, b}), hash(a) == hash(b)))
    if k == 'err': rep.fail('%s: comparing raises %r' % (what, v))
    if v[:4] != ((True, False, True, 1) if same else (False, True, False, 2)) or same and not v[4]: rep.fail('%s: ==, !=, in, size of set, equal hashes are %s' % (what, v))
    rep.outcome('equal' if same else 'different')


def opcodes_row(rep, lo):
    def data(n): return None if not 1 <= n <= 78 else b'a' * (n if n < 76 else 3)
    ops = [Opcode(n) for n in range(256)]
    ins = [Instruction(Opcode(n), data(n)) for n in range(256)]
    scripts = [Script.from_bytes(T_one(n, data(n))) for n in range(256)]
    texts = [Script([Instruction(Opcode(n), data(n))]) for n in range(256)]
    for a in range(lo, lo + 8):
        for b in range(256):
            rep.state('op', a, b)
            differ(rep, ops[a], Opcode(b), 'Opcode(%d), Opcode(%d)' % (a, b), a == b)
            differ(rep, ins[a], Instruction(Opcode(b), data(b)), 'instructions with %d and %d' % (a, b), a == b)
            differ(rep, scripts[a], texts[b], 'scripts of %d and %d' % (a, b), a == b)
            for x, y, want in ((ops[a] < ops[b], ops[a] > ops[b], a < b),):
                if x != want or y != (a > b): rep.fail('order of operations %d and %d' % (a, b))


def flips(raw):
    for i in range(len(raw)):
        for bit in (0, 3, 7): yield raw[:i] + bytes([raw[i] ^ 1 << bit]) + raw[i + 1:]
    for n in (len(raw) - 1, len(raw) // 2): yield raw[:n]
    yield raw + b'\0'


NEAR = {
    'sizes': (lambda s: PrivateKey(s), lambda: (1, [2 ** k + d for k in range(1, 256) for d in (0, 1)])),
    'uncompressed secret': (lambda s: PrivateKey(s, networks.testnet, False), lambda: (7, [7 ^ 1 << i for i in range(4, 255, 3)])),
    'public sizes': (lambda s: PublicKey.from_bytes(pub(s)), lambda: (3, [2 ** k for k in range(2, 256, 5)])),
    'public uncompressed': (lambda s: PublicKey.from_bytes(pub(s, False)), lambda: (3, [2 ** k for k in range(2, 256, 9)])),
    'hash bytes': (lambda h: Address(h, networks.testnet, Address.Type.Script), lambda: (patterned(20, 1), [h for h in bytelike(patterned(20, 1)) if h != patterned(20, 1)])),
    'data bytes': (lambda d: Script.compile([d, Opcode(0x61)]), lambda: (patterned(9, 1), [d for d in bytelike(patterned(9, 1)) if d != patterned(9, 1)])),
    'id bytes': (lambda h: Input(h.hex(), 1, Script.from_bytes(b'\x51')), lambda: (patterned(32, 2), [h for h in bytelike(patterned(32, 2)) if h != patterned(32, 2)][::2])),
    'amount sizes': (lambda n: Output(n, Script.from_bytes(b'\x51')), lambda: (0, bitints(64, 1))),
    'index sizes': (lambda n: Input(TX1, n, Script(), n ^ 5), lambda: (0, bitints(32, 1))),
    'lock sizes': (lambda n: Transaction(_ins(), _outs(), n, n ^ 1), lambda: (0, bitints(32, 1))),
    'chain bytes': (lambda c: HDPrivateKey(PrivateKey(5), c), lambda: (patterned(32, 4), [c for c in bytelike(patterned(32, 4)) if c != patterned(32, 4)][::4])),
    'hd sizes': (lambda n: HDPrivateKey(PrivateKey(5), patterned(32, 4), 1, n, n ^ 7), lambda: (0, bitints(32, 1)[::2])),
    'hd public sizes': (lambda n: HDPublicKey(PublicKey.from_bytes(pub(5)), patterned(32, 4), 1, n, n ^ 7), lambda: (0, bitints(32, 1)[::4])),
    'hd public depth': (lambda n: HDPublicKey(PublicKey.from_bytes(pub(5)), patterned(32, 4), n, 1, 2), lambda: (7, [n for n in range(256) if n != 7][::5])),
    'secret': (lambda s: PrivateKey(s), lambda: (5, [5 ^ 1 << i for i in range(255) if 0 < 5 ^ 1 << i < N])),
    'pubkey': (lambda s: PublicKey.from_bytes(pub(*s)), lambda: ((5, True), [(5, False), (N - 5, True), (N - 5, False)] + [(i, True) for i in range(6, 60)])),
    'address': (lambda h: Address(h), lambda: (patterned(20, 1), [h for h in flips(patterned(20, 1)) if len(h) == 20])),
    'instruction': (lambda d: Instruction.push_for(d), lambda: (patterned(40, 1), list(flips(patterned(40, 1))))),
    'script': (lambda d: Script.compile([Opcode(0x61), d, Opcode(0x51)]), lambda: (patterned(80, 1), list(flips(patterned(80, 1))))),
    'lengths': (lambda n: Script.from_bytes(b'\x61' * n), lambda: (20, [n for n in range(0, 60) if n != 20])),
    'push forms': (lambda f: Script.from_bytes(f + b'a'), lambda: (b'\x01', [b'\x4c\x01', b'\x4d\x01\0', b'\x4e\x01\0\0\0'])),
    'input index': (lambda n: Input(TX1, n, Script()), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'input sequence': (lambda n: Input(TX1, 0, Script(), n), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'input id': (lambda h: Input(h.hex(), 0, Script()), lambda: (patterned(32, 2), [h for h in flips(patterned(32, 2)) if len(h) == 32])),
    'amount': (lambda n: Output(n, Script()), lambda: (7, [7 ^ 1 << i for i in range(64)])),
    'output script': (lambda d: Output(1, Script.compile([d])), lambda: (patterned(30, 1), list(flips(patterned(30, 1))))),
    'lock time': (lambda n: Transaction(_ins(), _outs(), n), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'version': (lambda n: Transaction(_ins(), _outs(), 0, n), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'tx amount': (lambda n: Transaction(_ins(), [Output(5, Script()), Output(n, Script())]), lambda: (7, [7 ^ 1 << i for i in range(64)])),
    'tx order': (lambda p: Transaction([Input(TX1, i, Script()) for i in p], _outs()), lambda: ((0, 1, 2), [p for n in range(1, 5) for p in itertools.product((0, 1, 2), repeat=n) if p != (0, 1, 2)])),
    'chain': (lambda c: HDPrivateKey(PrivateKey(5), c), lambda: (patterned(32, 4), [c for c in flips(patterned(32, 4)) if len(c) == 32])),
    'hd index': (lambda n: HDPrivateKey(PrivateKey(5), patterned(32, 4), 3, n, 9), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'hd parent': (lambda n: HDPrivateKey(PrivateKey(5), patterned(32, 4), 3, 1, n), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'hd depth': (lambda n: HDPrivateKey(PrivateKey(5), patterned(32, 4), n, 1, 2), lambda: (7, [7 ^ 1 << i for i in range(8)])),
    'hd public index': (lambda n: HDPublicKey(PublicKey.from_bytes(pub(5)), patterned(32, 4), 3, n, 9), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'hd public parent': (lambda n: HDPublicKey(PublicKey.from_bytes(pub(5)), patterned(32, 4), 3, 1, n), lambda: (7, [7 ^ 1 << i for i in range(32)])),
    'hd public chain': (lambda c: HDPublicKey(PublicKey.from_bytes(pub(5)), c), lambda: (patterned(32, 4), [c for c in flips(patterned(32, 4)) if len(c) == 32])),
    'hd public key': (lambda s: HDPublicKey(PublicKey.from_bytes(pub(s)), patterned(32, 4)), lambda: (5, [N - 5] + list(range(6, 40)))),
}


def near(rep, kind):
    make, values = NEAR[kind]
    base, others = values()
    a = make(base)
    differ(rep, a, make(base), '%s %s twice' % (kind, short(base)), True)
    for v in others:
        rep.state(kind, repr(v))
        differ(rep, a, make(v), '%s %s and %s' % (kind, short(base), short(v)))
        b = make(v)
        differ(rep, b, a, '%s %s and %s' % (kind, short(v), short(base)))
        differ(rep, b, make(v), '%s %s twice' % (kind, short(v)), True)
        for out, back in (('to_wif', 'from_wif'), ('to_bytes', 'from_bytes'), ('to_hex', 'from_hex'), ('to_string', 'from_string')):
            if hasattr(b, out) and hasattr(type(b), back) and (out, type(b)) != ('to_bytes', PrivateKey) and (out, type(b)) != ('to_hex', PrivateKey):
                c = getattr(type(b), back)(getattr(b, out)())
                differ(rep, b, c, '%s %s and its %s read again' % (kind, short(v), out), True)
                differ(rep, c, b, '%s %s and its %s read again' % (kind, short(v), out), True)
                differ(rep, c, a, '%s %s read again and %s' % (kind, short(v), short(base)))


def _pubs(): return [PublicKey.from_bytes(pub(1)), PublicKey.from_bytes(pub(2))]
def _ins(): return [Input(patterned(32, 1).hex(), 0, Script.from_bytes(b'\x51')), Input(patterned(32, 2).hex(), 1, Script.from_bytes(b'\x52'))]
def _outs(): return [Output(1, Script.from_bytes(b'\x51')), Output(2, Script.from_bytes(b'\x52'))]
def _raw(): return T.ser((1, ((patterned(32, 1).hex(), 0, p2pkh(b'\1' * 20), 5),), ((5, p2pkh(b'\2' * 20)), (0, b'\x6a\x02ab')), 0))
def _multi(**kw):
    inp = MultisigInput.create(patterned(32, 1).hex(), 0, _pubs(), 2)
    return Transaction([inp], _outs())


TX1 = patterned(32, 1).hex()
SOURCES = {
    'PrivateKey.from_bytes': lambda: (PrivateKey.from_bytes, bytearray(b'\1' * 32)),
    'PublicKey(list)': lambda: (PublicKey, list(ec.mul_g(7))),
    'PublicKey.from_bytes': lambda: (PublicKey.from_bytes, bytearray(pub(7))),
    'PublicKey.from_bytes uncompressed': lambda: (PublicKey.from_bytes, bytearray(pub(7, False))),
    'Address(bytearray)': lambda: (Address, bytearray(b'\1' * 20)),
    'Address.from_bytes': lambda: (Address.from_bytes, bytearray(b'\0' + b'\1' * 20)),
    'HDPrivateKey.from_seed': lambda: (HDPrivateKey.from_seed, bytearray(patterned(32, 2))),
    'HDPrivateKey(chain)': lambda: (lambda c: HDPrivateKey(PrivateKey(5), c), bytearray(patterned(32, 2))),
    'HDPublicKey(chain)': lambda: (lambda c: HDPublicKey(PublicKey.from_bytes(pub(5)), c), bytearray(patterned(32, 2))),
    'Instruction': lambda: (lambda d: Instruction(Opcode(3), d), bytearray(b'abc')),
    'Instruction.push_for': lambda: (Instruction.push_for, bytearray(b'abc')),
    'Instruction long': lambda: (Instruction.push_for, bytearray(b'abc' * 100)),
    'Script.from_bytes': lambda: (Script.from_bytes, bytearray(b'\x03abc\x51')),
    'Script.from_bytes template': lambda: (Script.from_bytes, bytearray(p2pkh(b'\1' * 20))),
    'Script(list)': lambda: (Script, list(Script.from_bytes(b'\x03abc\x51').instructions)),
    'Script.create(list)': lambda: (Script.create, list(Script.from_bytes(b'\x03abc\x02de').instructions)),
    'Script.compile(list)': lambda: (Script.compile, [b'abc', Opcode(0x51)]),
    'RedeemMultisig.create': lambda: (lambda p: script_module.RedeemMultisig.create(p, 2), _pubs()),
    'PayToScriptIn.create': lambda: (lambda s: script_module.PayToScriptIn.create(Script.from_bytes(b'\x51'), s), [b'abc', b'def']),
    'OpReturnOut.create': lambda: (script_module.OpReturnOut.create, b'abc'),
    'Input.from_bytes': lambda: (Input.from_bytes, bytearray(T.ser_in((TX1, 0, p2pkh(b'\1' * 20), 5)))),
    'Output.from_bytes': lambda: (Output.from_bytes, bytearray(T.ser_out((5, p2pkh(b'\1' * 20))))),
    'Transaction.from_bytes': lambda: (Transaction.from_bytes, bytearray(_raw())),
    'Transaction(inputs)': lambda: (lambda i: Transaction(i, _outs()), _ins()),
    'Transaction(outputs)': lambda: (lambda o: Transaction(_ins(), o), _outs()),
    'replace_inputs': lambda: (lambda i: Transaction(_ins(), _outs()).replace_inputs(i), _ins()),
    'MultisigInput.create': lambda: (lambda p: MultisigInput.create(TX1, 0, p, 1), _pubs()),
    'MultisigOutput.create': lambda: (lambda p: MultisigOutput.create(5, p, 1), _pubs()),
    'DataOutput.create': lambda: (DataOutput.create, b'abc'),
    'Transaction.sign keys': lambda: (lambda k: _multi().sign(k, 0), [PrivateKey(2), PrivateKey(1)]),
    'AddressInput sign keys': lambda: (lambda k: Transaction([AddressInput.create(TX1, 0, PrivateKey(1).to_address())], _outs()).sign(k, 0), [PrivateKey(1)]),
    'Buffer read': lambda: (lambda b: Script.from_bytes(b), Buffer(b'\x03abc\x51')),
    'Buffer input': lambda: (lambda b: Input.from_bytes(b), Buffer(T.ser_in((TX1, 0, p2pkh(b'\1' * 20), 5)))),
    'Buffer transaction': lambda: (lambda b: Transaction.from_bytes(b), Buffer(_raw())),
    'Buffer instruction': lambda: (lambda b: Instruction(Opcode(3), b), Buffer(b'abc')),
    'Buffer address': lambda: (lambda b: Address(b), Buffer(b'\1' * 20)),
}

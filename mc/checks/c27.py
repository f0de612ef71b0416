"""C27: secrets, seeds and nonces against an enumerated entropy source."""
import ast, random
from ..common import *
from .. import entropy
from ..spend import p2pkh, T
from ..proc import in_child

ID = 'C27'
RULE = ('State: (operation, what the entropy source answers, state of the pseudo-random generator). The operating system\'s entropy source is replaced by an '
        'enumerated environment: boundary streams, a base stream and all its neighbours at one or two changed bits, and a source that fails at its k-th request. '
        'On every execution: the key is valid, of the requested network and form; equal streams give equal keys whatever was generated before and whatever '
        'the state of the pseudo-random generator; different streams give different keys; at least 32 bytes were consumed; a failing source never yields a key '
        'made of anything else. Nonces are recovered from signatures with the known secret and must be different for different digests.')
BOUNDS = {
    'quick': '5 ways to generate a key x 21 boundary streams x 3 generator states; 3 ways x 112 streams around and beyond the order in both byte orders; 8 base streams x 256 one-bit and 3 x 32640 two-bit neighbours of secrets, 2 x 256 of seeds; '
             'source failing at request 1 to 4; histories of 40, 3000 (seeds: 300) keys and 280 signatures; 6 histories of 8 signatures and of transactions with 4 inputs; 64 one-bit neighbours of the nonce entropy',
    'thorough': '64 base streams x 256, 8 x 32640 neighbours of secrets, 16 x 256 of seeds; all 256 one-bit neighbours of the nonce entropy; 24 signature histories',
}
BASES = [patterned(32, 700 + i)[:0] + bytes([patterned(1, 700 + i)[0] & 0x7f]) + patterned(32, 900 + i)[1:] for i in range(64)]
BASES[1] = b'\0' * 32
BASES[2] = b'\x55' * 32
BASES[3] = b'\0' * 16 + b'\x7f' * 16
WAYS = {
    'PrivateKey()': (lambda: PrivateKey(), 'livenet', True),
    "PrivateKey(None, 'testnet')": (lambda: PrivateKey(None, 'testnet'), 'testnet', True),
    'PrivateKey(network = testnet, compressed = False)': (lambda: PrivateKey(network=networks.testnet, compressed=False), 'testnet', False),
    'HDPrivateKey.from_seed()': (lambda: HDPrivateKey.from_seed(), 'livenet', True),
    'HDPrivateKey.from_seed(None)': (lambda: HDPrivateKey.from_seed(None), 'livenet', True),
}
EDGES = [b'\0' * 64, b'\xff' * 32, b'\xff' * 96, b'\0' * 31 + b'\1', b'\1' + b'\0' * 31, N.to_bytes(32, 'big'), (N - 1).to_bytes(32, 'big'), (N - 2).to_bytes(32, 'big'),
         (N + 1).to_bytes(32, 'big'), N.to_bytes(32, 'big') * 2 + b'\0' * 32, (N - 1).to_bytes(32, 'little'), (N - 2).to_bytes(32, 'little'), N.to_bytes(32, 'little'),
         b'\x80' + b'\0' * 31, b'\x7f' + b'\xff' * 31, b'\xff' * 16 + b'\0' * 16, b'\0' * 16 + b'\xff' * 16, b'\xff' * 33 + b'\0' * 40, (2 ** 255).to_bytes(32, 'big'), b'\xfe' * 64, b'\1' * 64]
class Down(Exception): pass


def cases(tier):
    t = tier == 'thorough'
    for w in WAYS:
        for i in range(len(EDGES)): yield ('edge', w, i)
        for k in range(1, 5): yield ('down', w, k)
        yield ('history', w)
        yield ('long history', w, (6000 if t else 3000) if w.startswith('P') else 300 if not t else 1100)
    for i in range(64 if t else 8): yield ('bits', i)
    for i in range(8 if t else 3):
        yield ('two bits', i)
    for i in range(16 if t else 2):
        for lo in range(0, 256, 16): yield ('seed bits', i, lo)
    yield ('explicit',)
    for w in list(WAYS)[:3]: yield ('beyond', w)
    for i in range(24 if t else 6):
        yield ('signatures', i)
    for i in range(3): yield ('transaction', i)
    for i in range(3): yield ('many signatures', i, 1100 if t else 280)
    for lo in range(0, 256, 4):
        if t or lo % 16 == 0: yield ('nonce bits', lo)
    for k in range(1, 4): yield ('nonce down', k)


def content(o):
    return o.secret if isinstance(o, PrivateKey) else (o.privkey.secret, o.chain)


def generate(rep, w, stream, tail=0, seed=None):
    """The key made from an entropy stream, and how much of it was used."""
    f, net, comp = WAYS[w]
    random.seed(seed)
    entropy.script(entropy.Counter(stream, tail))
    try:
        kind, o = call(f)
    finally:
        used = sum(entropy.script(None))
    what = '%s with entropy %s...' % (w, stream[:34].hex())
    rep.step()
    rep.traces += 1
    if kind == 'err': rep.fail('%s raised %r' % (what, o))
    key = o if isinstance(o, PrivateKey) else o.privkey
    if not (isinstance(key.secret, int) and 0 < key.secret < N): rep.fail('%s: secret %r' % (what, key.secret))
    if (key.network, bool(key.compressed)) != (NETS[net], comp): rep.fail('%s: %r %r' % (what, key.network.name, key.compressed))
    if o is not key and (o.depth, o.index, o.parent, o.network, len(o.chain)) != (0, 0, 0, networks.livenet, 32): rep.fail('%s: not a root: %r' % (what, o))
    if used < 32: rep.fail('%s: only %d bytes of entropy were consumed' % (what, used))
    return o, used


def nonce(d, digest, sig):
    """The nonce of a signature (up to sign), from the secret."""
    r, s = B.der_parse(bytes(sig))
    k = pow(s, -1, N) * (int.from_bytes(digest, 'big') + r * d) % N
    return r, min(k, N - k)


def run(case, rep):
    kind = case[0]
    if kind == 'edge':
        _, w, i = case
        first = None
        for seed in (0, 1, 'x'):
            o, used = generate(rep, w, EDGES[i], i, seed)
            rep.state(case, seed)
            if first is None: first = content(o)
            if content(o) != first: rep.fail('%s: the same entropy gives %s and %s' % (w, short(first), short(content(o))))
        other, _ = generate(rep, w, patterned(96, 800 + i), i + 1, 0)
        if content(other) == first: rep.fail('%s: different entropy (%s) gives the same key %s' % (w, EDGES[i].hex(), short(first)))
        rep.outcome('valid')
    elif kind == 'bits' or kind == 'two bits':
        base = BASES[case[1]]
        w = 'PrivateKey()'
        seen = {content(generate(rep, w, base)[0]): 'base'}
        v = int.from_bytes(base, 'big')
        flips = [(a,) for a in range(256)] if kind == 'bits' else list(itertools.combinations(range(255), 2))
        for fl in flips:
            x = v
            for b in fl: x ^= 1 << b
            # seeding differently would hide nothing: the generator state is the same for all
            s = content(generate(rep, w, x.to_bytes(32, 'big'))[0])
            if s in seen: rep.fail('%s: entropy %064x and %064x with bits %s changed give the same key %x' % (w, v, v, fl, s))
            seen[s] = fl
        ones = zeros = 0
        for s in seen: ones |= s; zeros |= ~s
        stuck = [b for b in range(256) if not (ones >> b & 1 and zeros >> b & 1)]
        if stuck and kind == 'bits': rep.fail('%s: bit %d of the secret is the same for %d streams of entropy that differ in every bit' % (w, stuck[-1], len(seen)))
        rep.state(case)
        rep.outcome('different', len(seen))
    elif kind == 'beyond':                    # entropy beyond the order: streams that are congruent, or nearly so
        w, seen = case[1], {}
        low = [0, 1, 2, 3, 5, 255, 256, 2 ** 32, 2 ** 64 + 7, 2 ** 120 + 9, 2 ** 127, 2 ** 128 - 9]
        values = sorted({x for e in low for x in (e, e + N - 2, e + N - 1, e + N, e + N + 1) if x < 2 ** 256} | {2 ** 256 - 1 - e for e in low} | {2 ** 255 - e for e in low} | {N // 2 + e for e in low})
        for order in ('big', 'little'):
            for i, x in enumerate(values):
                stream = x.to_bytes(32, order)
                s = content(generate(rep, w, stream, 300 + i + (1000 if order == 'little' else 0))[0])
                if seen.get(s, stream) != stream: rep.fail('%s: entropy %s and %s give the same key %x' % (w, seen[s].hex(), stream.hex(), s))
                seen[s] = stream
                rep.state(w, order, x)
        rep.outcome('different', len(seen))
    elif kind == 'seed bits':
        _, i, lo = case
        v = int.from_bytes(BASES[i], 'big')
        w = 'HDPrivateKey.from_seed()'
        seen, chains = set(), set()
        for b in [None] + list(range(lo, lo + 16)):
            x = v if b is None else v ^ 1 << b
            o = generate(rep, w, x.to_bytes(32, 'big'))[0]
            s, c = content(o)
            if s in seen or c in chains: rep.fail('%s: entropy %064x with bit %s changed gives a known key or chain code' % (w, v, b))
            seen.add(s); chains.add(c)
            rep.state(i, b)
        rep.outcome('different', len(seen))
    elif kind == 'down':
        _, w, k = case
        f = WAYS[w][0]
        got = []
        for seed in (0, 0, 1):
            random.seed(seed)
            src = entropy.Counter(b'\xff' * 32 * 2)      # refused by rejection sampling: more is requested
            count = [0]
            def source(n):
                count[0] += 1
                if count[0] >= k: raise Down('no entropy')
                return src(n)
            entropy.script(source)
            try:
                kind2, o = call(f)
            finally:
                used = sum(entropy.script(None))
            rep.step()
            rep.state(case, seed)
            rep.traces += 1
            if kind2 == 'ok' and src.pos < 32: rep.fail('%s gave %s although the entropy source failed at request %d after %d bytes' % (w, short(o), k, src.pos))
            got.append((kind2, content(o) if kind2 == 'ok' else type(o).__name__))
            rep.outcome('refused' if kind2 == 'err' else 'enough entropy before the fault')
        if len(set(got)) != 1: rep.fail('%s with a failing source: %s' % (w, short(got)))
    elif kind == 'history':
        w = case[1]
        stream = entropy.Counter(patterned(64, 55))
        entropy.script(stream)
        keys = []
        for i in range(40):
            random.seed(0)
            before = stream.pos
            k, o = call(WAYS[w][0])
            if k == 'err': rep.fail('key %d of a history: %r' % (i, o))
            if stream.pos - before < 32: rep.fail('%s, key %d of a history: %d bytes of entropy' % (w, i, stream.pos - before))
            if content(o) in keys: rep.fail('%s, key %d of a history repeats key %d' % (w, i, keys.index(content(o))))
            keys.append(content(o))
            rep.step(); rep.traces += 1
            rep.state(case, i)
        entropy.script(None)
        # Each is the key that its part of the stream gives to a first call.
        data = entropy.Counter(patterned(64, 55))(32 * 80)
        replay = entropy.Counter(data)
        entropy.script(replay)
        again = [content(WAYS[w][0]()) for i in range(40)]
        entropy.script(None)
        rep.equal(again, keys, '%s: the same entropy, again' % w)
        rep.outcome('different', 40)
    elif kind == 'explicit':
        for what, f in (('PrivateKey(0)', lambda: PrivateKey(0)), ('PrivateKey(N)', lambda: PrivateKey(N)), ('PrivateKey(-1)', lambda: PrivateKey(-1)), ('PrivateKey(2**256)', lambda: PrivateKey(2 ** 256)),
                        ("from_bytes('')", lambda: PrivateKey.from_bytes(b'')), ("from_hex('')", lambda: PrivateKey.from_hex('')), ('from_bytes(zeros)', lambda: PrivateKey.from_bytes(b'\0' * 32)),
                        ("from_seed('')", lambda: HDPrivateKey.from_seed(b'')), ('from_seed(31)', lambda: HDPrivateKey.from_seed(b'\1' * 31)), ('from_seed([])', lambda: HDPrivateKey.from_seed(bytearray()))):
            entropy.script(entropy.Counter(b'\5' * 32))
            k, o = call(f)
            entropy.script(None)
            rep.step(); rep.traces += 1
            if k == 'ok': rep.fail('%s is replaced by %s' % (what, short(content(o))))
            rep.outcome('refused')
            rep.state(what)
        for what, f, want in (('PrivateKey(7)', lambda: PrivateKey(7), 7), ('from_bytes', lambda: PrivateKey.from_bytes(b'\0' * 31 + b'\7'), 7), ('from_seed', lambda: content(HDPrivateKey.from_seed(bytes(32))), None)):
            outs = []
            for s in (1, 2):
                entropy.script(entropy.Counter(bytes([s]) * 32))
                outs.append(f())
                entropy.script(None)
                rep.step(); rep.traces += 1
            if outs[0] != outs[1] or (want and outs[0].secret != want): rep.fail('%s depends on entropy: %s' % (what, short(outs)))
            rep.outcome('explicit')
    elif kind == 'long history':
        # thousands of keys: each consumes entropy, none repeats, and each is what a fresh process makes of that part of the stream
        _, w, count = case
        probes = sorted(set(range(0, count, max(1, count // 12))) | {255, 256, 257, count - 2, count - 1})
        def go():
            stream = entropy.Counter(b'', 91)
            entropy.script(stream)
            keys, at = {}, []
            for i in range(count):
                before = stream.pos
                k, o = call(WAYS[w][0])
                if k == 'err': return 'key %d of a history: %r' % (i, o), None
                c = content(o)
                if stream.pos - before < 32: return '%s, key %d of a history: %d bytes of entropy' % (w, i, stream.pos - before), None
                if c in keys: return '%s, key %d of a history repeats key %d' % (w, i, keys[c]), None
                keys[c] = i
                if i in probes: at.append((i, before, c))
            return '', at
        def one(pos):
            stream = entropy.Counter(b'', 91)
            stream.pos = pos
            entropy.script(stream)
            return content(WAYS[w][0]())
        out = in_child(lambda: repr(go()))
        if not out.startswith('('): rep.fail(out)
        m, at = ast.literal_eval(out)
        if m: rep.fail(m)
        for i, pos, c in at: rep.equal(in_child(lambda: repr(one(pos))), repr(c), '%s, key %d of a history, from the same entropy' % (w, i))
        rep.step(count); rep.traces += count
        for i in range(count): rep.state(case, i)
        rep.outcome('keys of a long history', count)
    elif kind == 'many signatures':
        # hundreds of signatures by one key, of different digests
        _, i, count = case
        d = [5, N - 2, int.from_bytes(patterned(32, 4), 'big') % N][i]
        def go():
            stream = entropy.Counter(b'', 95 + i)
            entropy.script(stream)
            key, seen = PrivateKey(d), {}
            for j in range(count):
                dg = patterned(30, 7) + j.to_bytes(2, 'big') if i == 1 else patterned(32, j)
                before = stream.pos
                k, sig = call(key.sign, dg)
                if k == 'err': return 'signing raised %r' % (sig,)
                r, n = nonce(d, dg, sig)
                if r in seen: return 'signatures %d and %d by key %x share the nonce %x' % (j, seen[r], d, n)
                if n < 2 ** 200: return 'the nonce %x of signature %d by key %x is small' % (n, j, d)
                seen[r] = j
            return ''
        m = in_child(go)
        if m: rep.fail(m)
        rep.step(count); rep.traces += count
        for j in range(count): rep.state(case, j)
        rep.outcome('different nonce', count)
    elif kind == 'signatures':
        i = case[1]
        d = [1, N - 1, int.from_bytes(patterned(32, 3), 'big') % N][i % 3]
        digests = [b'\0' * 32, b'\0' * 31 + b'\1', patterned(32, 2 * i), patterned(32, 2 * i)[::-1], patterned(32, 1), patterned(32, 5)[:31] + b'\0', b'\xff' * 32, N.to_bytes(32, 'big')]
        key = PrivateKey(d)
        stream = entropy.Counter(patterned(16, 60 + i), i)
        seen = {}
        for j, dg in enumerate(digests):
            random.seed(0)
            entropy.script(stream)
            k, sig = call((key if i % 2 else PrivateKey(d, 'testnet')).sign, dg)
            entropy.script(None)
            rep.step(); rep.traces += 1
            rep.state(case, j)
            if k == 'err': rep.fail('signing raised %r' % (sig,))
            r, n = nonce(d, dg, sig)
            for what in (('r', r), ('k', n)):
                if what in seen: rep.fail('the signatures of %s and %s by key %x share the nonce %x' % (dg.hex(), seen[what].hex(), d, n))
                seen[what] = dg
            if n < 2 ** 200: rep.fail('the nonce %x of the signature of %s by key %x is small' % (n, dg.hex(), d))
            rep.outcome('different nonce')
    elif kind == 'transaction':
        keys = [PrivateKey(3), PrivateKey(4), PrivateKey(5)]
        i = case[1]
        addr = keys[0].to_address()
        ins = [AddressInput.create(patterned(32, j).hex(), j, addr) for j in range(3)] if i == 0 else \
            [MultisigInput.create(patterned(32, j).hex(), j, [k.to_public_key() for k in keys], 2) for j in range(2)]
        tx = Transaction(ins, [Output(5, Script.from_bytes(b'\x51'))])
        stream = entropy.Counter(patterned(8, 70 + i), i)
        order = list(range(len(ins)))
        if i == 2: order.reverse()
        rs = {}
        for j in order:
            random.seed(0)
            entropy.script(stream)
            tx = tx.sign(keys[:1] if i == 0 else keys[:2], j)
            entropy.script(None)
            rep.step()
            rep.state(case, j)
        for j, inp in enumerate(tx.inputs):
            for ins_ in inp.script.instructions[:1 if i == 0 else 3]:
                sig = ins_.data
                if not sig: continue
                r = B.der_parse(bytes(sig[:-1]))[0]
                if r in rs: rep.fail('two signatures of a transaction share their nonce: inputs %d and %s' % (j, rs[r]))
                rs[r] = j
                rep.traces += 1
        rep.equal(len(rs), 3 if i == 0 else 4, 'the number of signatures')
        rep.outcome('different nonce', len(rs))
    elif kind == 'nonce bits':
        lo = case[1]
        d, dg, dg2 = 12345, patterned(32, 81), patterned(32, 82)
        base = int.from_bytes(BASES[5], 'big')
        def one(x, digest):
            random.seed(0)
            entropy.script(entropy.Counter(x.to_bytes(32, 'big')))
            sig = PrivateKey(d).sign(digest)
            used = sum(entropy.script(None))
            rep.step(); rep.traces += 1
            return nonce(d, digest, sig) + (used,)
        r0, _, used0 = one(base, dg)
        r1, _, _ = one(base, dg2)
        derived = r0 != r1                # the nonce depends on the digest
        rep.outcome('nonce depends on the digest' if derived else 'nonce depends on entropy alone')
        if not derived and used0 < 32: rep.fail('the nonce is made of %d bytes of entropy alone' % used0)
        if derived: return
        seen = {r0}
        for b in range(lo, lo + 4):
            r, _, _ = one(base ^ 1 << b, dg2)
            if r in seen: rep.fail('signatures of two digests share a nonce although bit %d of the entropy differs' % b)
            seen.add(r)
            rep.state(case, b)
    elif kind == 'nonce down':
        k = case[1]
        rs = []
        for dg in (patterned(32, 81), patterned(32, 82)):
            random.seed(0)
            src, count = entropy.Counter(b'\xff' * 64), [0]
            def source(n):
                count[0] += 1
                if count[0] >= k: raise Down('no entropy')
                return src(n)
            entropy.script(source)
            kind2, sig = call(PrivateKey(777).sign, dg)
            entropy.script(None)
            rep.step(); rep.traces += 1
            rep.state(case, dg)
            if kind2 == 'ok': rs.append((nonce(777, dg, sig)[0], src.pos))
            rep.outcome('signature' if kind2 == 'ok' else 'refused')
        if len(rs) == 2 and rs[0][0] == rs[1][0] and min(rs[0][1], rs[1][1]) < 32: rep.fail('with a failing entropy source, the signatures of two digests share a nonce')

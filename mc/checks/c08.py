"""C08: the text form of extended keys."""
from ..common import *
from ..ref import bip32

ID = 'C08'
RULE = ('State: the tuple (kind, network, depth, parent, index, chain code, key), or a 78-byte payload / text. Written texts are compared '
        'with an independent BIP32 serializer, read keys field by field, accepted texts must be written back unchanged and everything an '
        'independent strict reader refuses must be refused.')
BOUNDS = {
    'quick': 'full product of 4 depths x 4 indexes x 4 parents x 3 chain codes x 2 networks x 3 keys, private and public; all payload '
             'lengths 0..90; every bit of every payload byte for 2 keys; 258 versions; all 255 pads; all 256 public key prefixes; '
             'out-of-range secrets and points; every single edit of 2 texts; every depth, and every bit length of index, parent, chain code and key',
    'thorough': 'product with 6 x 6 x 6 x 4 x 2 x 6; every value of every payload byte for 2 keys of each kind; edits of 4 texts',
}


def domain(tier):
    t = tier == 'thorough'
    return ([0, 1, 128, 255] + ([127, 254] if t else []), [0, 1, 2 ** 31, 2 ** 32 - 1] + ([255, 2 ** 31 - 1] if t else []),
            [0, 1, 0x01000000, 2 ** 32 - 1] + ([0x0000ff00, 0x80000000] if t else []),
            [0, 1, 2] + ([3] if t else []))


CHAINS = [b'\0' * 32, b'\xff' * 32, b'\0\0' + patterned(30, 1), patterned(31, 2) + b'\0']
KEYS = [1, N - 1, 44629, 153, 255, 2 ** 248]


def cases(tier):
    depths, indexes, parents, chains = domain(tier)
    for d in depths:
        for i in indexes:
            for p in parents: yield ('product', d, i, p, tuple(chains), tuple(KEYS[:6 if tier == 'thorough' else 3]))
    for n in range(0, 91): yield ('length', n)
    for i in range(4 if tier == 'thorough' else 2):
        for b in range(0, 78): yield ('bytes', i, b, tier == 'thorough')
    yield ('versions',)
    for lo in range(0, 256, 8): yield ('pads', lo)
    yield ('keys',)
    for i in range(4 if tier == 'thorough' else 2):
        for part in range(8): yield ('edits', i, part)
    for field in ('depth', 'index', 'parent', 'chain', 'key'):
        for part in range(8): yield ('field', field, part, tier == 'thorough')


def view(k):
    if type(k) is HDPrivateKey: key = ('prv', k.privkey.secret, k.privkey.network.name, bool(k.privkey.compressed))
    elif type(k) is HDPublicKey: key = ('pub', tuple(k.pubkey.pair), k.pubkey.network.name, bool(k.pubkey.compressed))
    else: key = (type(k),)
    return key + (bytes(k.chain), k.depth, k.index, k.parent, k.network.name)


def ref_payload(b, private):
    """The view a strict reader gives, or None."""
    if b is None or len(b) != 78: return None
    v = int.from_bytes(b[:4], 'big')
    net = {nv[0 if private else 1]: name for name, nv in bip32.VERSIONS.items()}.get(v)
    if net is None: return None
    if private:
        s = int.from_bytes(b[46:], 'big')
        if b[45] != 0 or not 0 < s < N: return None
        key = ('prv', s, net, True)
    else:
        pt = ec.sec_parse(b[45:])
        if pt is None: return None
        key = ('pub', pt[0], net, True)
    return key + (b[13:45], b[4], int.from_bytes(b[9:13], 'big'), int.from_bytes(b[5:9], 'big'), net)


REFUSAL = (ValueError, BitforgeError, utils.encoding.EncodingError)


def check_text(text, rep, payload=None):
    payload = B.b58cdec(text) if payload is None else payload
    rep.state(text)
    for private, cls in ((True, HDPrivateKey), (False, HDPublicKey)):
        want = ref_payload(payload, private)
        got = agree(rep, '%s.from_string(%s)' % (cls.__name__, ascii(text)), want, cls.from_string, (text,), REFUSAL, view)
        if want is not None: rep.equal(got.to_string(), text, 'written back')


def nodes():
    a = bip32.Node(int.from_bytes(patterned(32, 5), 'big'), None, patterned(32, 6), 3, 2 ** 31 + 7, b'\1\2\3\4', 'livenet')
    b = bip32.Node(7, None, patterned(32, 7), 255, 2 ** 32 - 1, b'\0\0\0\5', 'testnet')
    return [a, b.neuter(), b, a.neuter()]


def run(case, rep):
    kind = case[0]
    if kind == 'product':
        _, depth, index, parent, chains, keys = case
        for ci in chains:
            chain = CHAINS[ci]
            for net in NETNAMES:
                for s in keys:
                    ref = bip32.Node(s, None, chain, depth, index, parent.to_bytes(4, 'big'), net)
                    k = HDPrivateKey(PrivateKey(s, net), chain, depth, index, parent, NETS[net])
                    want = ('prv', s, net, True, chain, depth, index, parent, net)
                    rep.state(want); rep.step(2)
                    rep.equal(k.to_string(), ref.text(), 'to_string of %s' % (want,))
                    back = HDPrivateKey.from_string(ref.text())
                    rep.equal(view(back), want, 'from_string of %s' % (want,))
                    rep.check(back == k and hash(back) == hash(k), 'key read back differs: %s', want)
                    rep.equal(back.fingerprint, int.from_bytes(ref.fingerprint, 'big'), 'fingerprint')
                    if s == keys[(depth + index + ci) % len(keys)] or len(keys) > 3:
                        pref = ref.neuter()
                        p = HDPublicKey(PublicKey(pref.point, net), chain, depth, index, parent, NETS[net])
                        want = ('pub', pref.point, net, True, chain, depth, index, parent, net)
                        rep.state(want); rep.step(2)
                        rep.equal(p.to_string(), pref.text(), 'to_string of %s' % (want,))
                        back = HDPublicKey.from_string(pref.text())
                        rep.equal(view(back), want, 'from_string of %s' % (want,))
                        rep.check(back == p and hash(back) == hash(p), 'key read back differs: %s', want)
                        rep.equal(back.fingerprint, int.from_bytes(ref.fingerprint, 'big'), 'fingerprint')
        rep.outcome('round trip', len(chains) * 2 * len(keys))
        rep.sample('depth %d index %d parent %08x' % (depth, index, parent))
    elif kind == 'length':
        for nd in nodes():
            p = nd.payload()
            b = (p + b'\0' * 20)[:case[1]]
            check_text(B.b58cenc(b), rep, b)
            b = (p[:45] + b'\0' * 20 + p[45:])[:case[1]] if case[1] > 78 else (p[:4] + p[4 + 78 - case[1]:])
            if len(b) == case[1]: check_text(B.b58cenc(b), rep, b)
    elif kind == 'bytes':
        base = nodes()[case[1]].payload()
        for v in (range(256) if case[3] else [base[case[2]] ^ (1 << i) for i in range(8)]):
            b = bytearray(base)
            b[case[2]] = v
            check_text(B.b58cenc(bytes(b)), rep, bytes(b))
    elif kind == 'versions':
        versions = [v for pair in bip32.VERSIONS.values() for v in pair]
        cand = set(versions) | {0, 2 ** 32 - 1, 0x0488, 0x80, 0xef, 111, 5}
        for v in versions: cand |= {v ^ (1 << i) for i in range(32)} | {v + 1, v - 1, int.from_bytes(v.to_bytes(4, 'big')[::-1], 'big')}
        for nd in nodes():
            p = nd.payload()
            for v in sorted(cand):
                b = v.to_bytes(4, 'big') + p[4:]
                check_text(B.b58cenc(b), rep, b)
    elif kind == 'pads':
        for v in range(case[1], case[1] + 8):
            for nd in nodes():
                p = nd.payload()
                b = p[:45] + bytes([v]) + p[46:]
                check_text(B.b58cenc(b), rep, b)
                for ver in (0x0488ade4, 0x0488b21e):
                    b = ver.to_bytes(4, 'big') + p[4:45] + bytes([v]) + p[46:]
                    check_text(B.b58cenc(b), rep, b)
    elif kind == 'keys':
        head = nodes()[0].payload()[:45]
        for s in (0, 1, N - 1, N, N + 1, 2 ** 256 - 1, 2 ** 255):
            b = head + b'\0' + s.to_bytes(32, 'big')
            check_text(B.b58cenc(b), rep, b)
        head = nodes()[3].payload()[:45]
        for x in list(range(0, 40)) + [ec.P - 1, ec.P, ec.P + 1, ec.P + 2, 2 ** 256 - 1]:
            for pre in (2, 3, 4, 0):
                b = head + bytes([pre]) + x.to_bytes(32, 'big')
                check_text(B.b58cenc(b), rep, b)
    elif kind == 'field':
        # every field over its whole range of sizes, the others fixed
        _, field, part, t = case
        at, vals = {'depth': (4, [bytes([v]) for v in range(256)]), 'index': (9, [v.to_bytes(4, 'big') for v in bitints(32)]), 'parent': (5, [v.to_bytes(4, 'big') for v in bitints(32)] + bytelike(b'\1\2\3\4')),
                    'chain': (13, bytelike(patterned(32, 8))), 'key': (46, [v.to_bytes(32, 'big') for v in bitints(256, 1, N - 1)])}[field]
        for i, v in enumerate(vals):
            if i % 8 != part: continue
            for nd in nodes()[:4 if t else 2]:
                p = nd.payload()
                if field == 'key' and nd.priv is None:
                    for pre in (2, 3): b = p[:45] + bytes([pre]) + v; check_text(B.b58cenc(b), rep, b)
                else:
                    b = p[:at] + v + p[at + len(v):]
                    check_text(B.b58cenc(b), rep, b)
        rep.sample('every %s' % field)
    elif kind == 'edits':
        text = nodes()[case[1]].text()
        for i, t in enumerate(itertools.chain(edits(text, list(B.ALPHABET) + ['0', 'l', ' ', '\n', '\u00e9']), decorated(text))):
            if i % 8 == case[2]: check_text(t, rep)
        rep.sample('edits of ' + text)

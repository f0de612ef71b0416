"""C03: addresses through text, hex and binary; addresses of keys and scripts."""
from ..common import *
from ..ref import tx as T

ID = 'C03'
RULE = ('State: (hash, network, type), a binary payload or a text. Writers are compared with independently built forms, readers '
        'with an independent strict reader (21 bytes, known version), addresses of keys and scripts with hash160 of the exact bytes.')
BOUNDS = {
    'quick': '47 hashes (every count of leading/trailing zeros) and 1200 more (every first and last byte) x 2 networks x 2 types x 3 forms and all conversion chains of length '
             '<= 4; all 256 versions x lengths 0..25 through 3 readers; every single edit of 4 addresses and 2 hex texts; 24 keys x 2 '
             'networks x 2 compressions and 1200 consecutive secrets x 2 compressions; 80 scripts x 2 networks, 500 scripts with runs at their ends; every constructor argument class',
    'thorough': 'quick + all 65536 (version, first hash byte) pairs x lengths 20..22, pairs of substitutions at 9 positions, 4800 + 200 keys, '
                'scripts of every length 0..600',
}
TYPES = {'pubkey': Address.Type.PublicKey, 'script': Address.Type.Script}
HASHES = ([b'\0' * z + patterned(20 - z, z) for z in range(0, 21)] + [patterned(20 - z, 50 + z) + b'\0' * z for z in range(1, 21)] +
          [b'\xff' * 20, b'\1' * 20, b'\0' * 19 + b'\1', b'\1' + b'\0' * 19, b'\x80' * 20, b'\x05' * 20])
BYVERSION = {v: k for k, v in VERSION.items()}


def view(a): return (bytes(a.phash), a.network.name, {'PublicKey': 'pubkey', 'Script': 'script'}[a.type.name])


def ref_bytes(b):
    if b is None or len(b) != 21 or b[0] not in BYVERSION: return None
    return (bytes(b[1:]),) + BYVERSION[b[0]]


def check_payload(b, rep):
    rep.state('payload', b)
    want = ref_bytes(b)
    agree(rep, 'from_bytes %s' % b.hex(), want, Address.from_bytes, (b,), Address.Error, view)
    agree(rep, 'from_hex %s' % b.hex(), want, Address.from_hex, (b.hex(),), Address.Error, view)
    agree(rep, 'from_string %s' % b.hex(), want, Address.from_string, (B.b58cenc(b),), Address.Error, view)


def check_text(t, rep):
    rep.state('text', t)
    agree(rep, 'from_string %s' % ascii(t), ref_bytes(B.b58cdec(t)), Address.from_string, (t,), Address.Error, view)


def scripts(tier):
    yield b''
    for n in range(1, 76): yield bytes([n]) + patterned(n, n)
    yield bytes([0x76, 0xa9, 20]) + b'\7' * 20 + bytes([0x88, 0xac])
    yield bytes([0xa9, 20]) + b'\7' * 20 + bytes([0x87])
    yield bytes([0x51, 33]) + pub(5) + bytes([0x51, 0xae])
    yield b'\x4c\x01\x07'
    for n in (76, 78, 80, 127, 128, 200, 252, 253, 254, 255, 256, 257, 300, 510, 513, 516, 517, 518, 519, 520, 521, 522, 523, 524, 600, 1000, 1023, 1024, 1025, 1650, 4096, 9999, 10000, 10001, 32768, 65535, 65536, 65540, 100001):
        yield b'\x51' * n
        yield b'\x4d' + (n - 3 & 0xffff).to_bytes(2, 'little') + patterned(n - 3 & 0xffff, n)
    if tier == 'thorough':
        for n in range(76, 600): yield b'\x4d' + n.to_bytes(2, 'little') + patterned(n, n)


def kind_of_raw(raw):
    try: return T.script_ops(raw)
    except Exception: return None


def cases(tier):
    for i in range(len(HASHES)): yield ('hash', i)
    for part in range(16): yield ('like', part)
    for v in range(256): yield ('version', v)
    for i in range(4): yield ('edits', i)
    yield ('hexedits',)
    yield ('constructor',)
    for k in ([1, 2, 3, 7, 122, 130, 153, 246, 44629, 41192, N - 1, N - 2] + [2 ** (20 * i) + i for i in range(1, 12)] + [N // 2]
              + (list(range(300, 480)) if tier == 'thorough' else [])):
        yield ('key', k)
    for k in range(4, 1204 if tier == 'quick' else 4804, 12): yield ('keys', k)
    for i, _ in enumerate(scripts(tier)): yield ('script', i, tier)
    for tail in (0, 1, 2, 4, 0x20, 0x51, 0x80, 0xff): yield ('scriptends', tail)
    if tier == 'thorough':
        for v in range(256): yield ('version2', v)
        for i in range(0, 34, 4): yield ('pairs', i)


def run(case, rep):
    kind = case[0]
    if kind == 'hash':
        h = HASHES[case[1]]
        for (net, typ), ver in VERSION.items():
            want = (h, net, typ)
            rep.state(want)
            raw = bytes([ver]) + h
            a = Address(h, NETS[net], TYPES[typ])
            rep.equal(view(a), want, 'Address(...)')
            rep.equal(view(Address(h, net, TYPES[typ])), want, 'Address with a network name')
            rep.equal(bytes(a.to_bytes()), raw, 'to_bytes %s' % (want,))
            rep.equal(a.to_hex(), raw.hex(), 'to_hex %s' % (want,))
            rep.equal(a.to_string(), B.b58cenc(raw), 'to_string %s' % (want,))
            ops = {'s': lambda a: Address.from_string(a.to_string()), 'h': lambda a: Address.from_hex(a.to_hex()),
                   'b': lambda a: Address.from_bytes(a.to_bytes())}
            for n in range(1, 5):
                for chain in itertools.product('shb', repeat=n):
                    x = a
                    for c in chain:
                        x = ops[c](x)
                        rep.step()
                    rep.equal(view(x), want, 'chain %s' % (chain,))
                    rep.check(x == a and hash(x) == hash(a), 'chain %s: not equal to the original', chain)
                    rep.state(want, chain)
            rep.outcome('round trip')
            rep.sample('%s -> %s' % (want, B.b58cenc(raw)))
    elif kind == 'like':
        for i, h in enumerate(bytelike(patterned(20, 60)) + bytelike(patterned(20, 61))):
            if i % 16 != case[1]: continue
            for (net, typ), ver in VERSION.items():
                raw, want = bytes([ver]) + h, (h, net, typ)
                rep.step(3)
                rep.state(want)
                a = Address(h, NETS[net], TYPES[typ])
                rep.equal(bytes(a.to_bytes()), raw, 'to_bytes %s' % (want,)); rep.equal(a.to_hex(), raw.hex(), 'to_hex %s' % (want,)); rep.equal(a.to_string(), B.b58cenc(raw), 'to_string %s' % (want,))
                for what, back in (('string', Address.from_string(B.b58cenc(raw))), ('hex', Address.from_hex(raw.hex())), ('bytes', Address.from_bytes(raw))):
                    rep.equal(view(back), want, 'from_%s of %s' % (what, raw.hex()))
                    rep.check(back == a and hash(back) == hash(a), 'from_%s: not equal to the original: %s', what, want)
                rep.outcome('round trip')
    elif kind == 'version':
        for n in range(0, 26):
            for fill in (patterned(n, n), b'\0' * n, b'\xff' * n):
                check_payload((bytes([case[1]]) + fill)[:n + 1], rep)
        check_payload(b'', rep)
    elif kind == 'version2':
        for q in range(256):
            for n in (18, 19, 20): check_payload(bytes([case[1], q]) + b'\x33' * n, rep)
    elif kind == 'edits':
        ver = sorted(BYVERSION)[case[1]]
        text = B.b58cenc(bytes([ver]) + HASHES[case[1] * 3])
        check_text(text, rep)
        for t in itertools.chain(edits(text, list(B.ALPHABET) + ['0', 'O', 'I', 'l', ' ', '\n', '\u00e9']), decorated(text)): check_text(t, rep)
        for i in range(len(text)):
            check_text(text[:i], rep)
            check_text(text[i:], rep)
    elif kind == 'hexedits':
        for raw in (b'\0' + HASHES[0], b'\xc4' + HASHES[4]):
            for t in itertools.chain(edits(raw.hex(), PRINTABLE + '\n\t\0\x7f\u00e9\u0661\uff11', transpose=False), decorated(raw.hex())):
                ok = len(t) % 2 == 0 and all(c in '0123456789abcdefABCDEF' for c in t)
                rep.state('hex', t)
                agree(rep, 'from_hex %s' % ascii(t), ref_bytes(bytes.fromhex(t)) if ok else None, Address.from_hex, (t,), Address.Error, view)
    elif kind == 'constructor':
        good = HASHES[0]
        for n in list(range(0, 20)) + list(range(21, 70)):
            refused(rep, Address.Error, 'hash of %d bytes' % n, Address, patterned(n))
            for net in NETNAMES: refused(rep, Address.Error, 'hash of %d bytes' % n, Address, patterned(n), net, Address.Type.Script)
        for net in ('mainnet', '', 'LIVENET', None, 0, 5, 111):
            refused(rep, Address.Error, 'network %r' % (net,), Address, good, net)
        for typ in ('pubkeyhash', 'PublicKey', None, 0, 1, 'scripthash', PublicKey):
            refused(rep, Address.Error, 'type %r' % (typ,), Address, good, networks.livenet, typ)
        rep.equal(view(Address(good)), (good, 'livenet', 'pubkey'), 'defaults')
        rep.outcome('constructor')
    elif kind == 'key':
        for net in NETNAMES:
            for comp in (True, False):
                want = (B.hash160(pub(case[1], comp)), net, 'pubkey')
                k = PrivateKey(case[1], net, comp)
                pk = k.to_public_key()
                read = PublicKey.from_bytes(pub(case[1], comp), net)
                rep.state('key', case[1], net, comp)
                for what, a in (('PrivateKey.to_address', k.to_address()), ('PublicKey.to_address', pk.to_address()),
                                ('Address.from_public_key', Address.from_public_key(pk)), ('of a parsed key', read.to_address())):
                    rep.step()
                    rep.equal(view(a), want, '%s of secret %d %s' % (what, case[1], comp))
        rep.outcome('key address', 4)
    elif kind == 'keys':                      # runs of secrets: public keys with every value of their first and last bytes
        for k in range(case[1], case[1] + 12):
            for comp in (True, False):
                want = (B.hash160(pub(k, comp)), 'livenet', 'pubkey')
                rep.state('keys', k, comp)
                read = PublicKey.from_bytes(pub(k, comp))
                rep.step(2)
                rep.equal(view(read.to_address()), want, 'address of the public key %s' % pub(k, comp).hex())
                rep.equal(view(Address.from_public_key(read)), want, 'from_public_key %s' % pub(k, comp).hex())
                if k % 6 == 0: rep.equal(view(PrivateKey(k, 'livenet', comp).to_address()), want, 'address of the secret %d' % k)
                rep.outcome('key address')
    elif kind == 'scriptends':                # scripts that begin or end with runs of one byte
        for n in range(0, 24):
            for raw in (b'\x61' + bytes([case[1]]) * n, bytes([24]) + patterned(24 - n, n) + bytes([case[1]]) * n, bytes([24]) + bytes([case[1]]) * n + patterned(24 - n, n)):
                if kind_of_raw(raw) is None: continue
                s = Script.from_bytes(raw)
                rep.state('script', raw)
                rep.step()
                rep.equal(view(Address.from_script(s)), (B.hash160(raw), 'livenet', 'script'), 'from_script %s' % raw.hex())
        rep.outcome('script address')
    elif kind == 'script':
        raw = list(scripts(case[2]))[case[1]]
        s = Script.from_bytes(raw)
        rep.state('script', raw)
        for net in NETNAMES:
            rep.step()
            rep.equal(view(Address.from_script(s, NETS[net])), (B.hash160(raw), net, 'script'), 'from_script %s' % raw.hex())
            rep.equal(view(Address.from_script(s, net)), (B.hash160(raw), net, 'script'), 'from_script by name')
        rep.equal(view(Address.from_script(s)), (B.hash160(raw), 'livenet', 'script'), 'from_script default')
        rep.outcome('script address')
    elif kind == 'pairs':
        text = B.b58cenc(b'\0' + HASHES[0])
        i = case[1]
        for j in range(i + 1, len(text)):
            for c in B.ALPHABET:
                for d in B.ALPHABET: check_text(text[:i] + c + text[i + 1:j] + d + text[j + 1:], rep)

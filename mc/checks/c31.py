"""C31: the networks and their prefixes."""
from ..common import *

ID = 'C31'
RULE = ('State: (attribute, value) given to the lookup of networks, or (object, network) written with its prefix and given to every reader. Constants are compared with those of the '
        'reference client, lookups with a table of them; every text carries the prefix of its kind and network and is accepted by exactly the reader of its kind, which reports that network.')
BOUNDS = {
    'quick': 'all 5 prefix attributes x values 0..70000, 2^k and 2^k +- 1, every value one or two bits away from a standard one; names: all single edits and spellings; 14 attributes; '
             '2 networks x 40 secrets/hashes x 6 kinds of text x 6 readers; all 256 prefix bytes (and all one-byte changes of 4-byte prefixes) of 6 payload kinds x 6 readers; networks given as object or name; fields of extended keys of every size, payloads with every first and last byte, all chains of 2 conversions or derivations of 24 extended keys',
    'thorough': 'values 0..2^20; 400 secrets and hashes',
}
STD = {'livenet': {'name': 'livenet', 'pubkeyhash': 0, 'scripthash': 5, 'wif_prefix': 128, 'hd_public_key': 0x0488b21e, 'hd_private_key': 0x0488ade4, 'magic': 0xf9beb4d9, 'port': 8333},
       'testnet': {'name': 'testnet', 'pubkeyhash': 111, 'scripthash': 196, 'wif_prefix': 239, 'hd_public_key': 0x043587cf, 'hd_private_key': 0x04358394, 'magic': 0x0b110907, 'port': 18333}}
PREFIX = ('pubkeyhash', 'scripthash', 'wif_prefix', 'hd_public_key', 'hd_private_key')
READERS = {
    'pubkeyhash': lambda t: ('pubkeyhash', Address.from_string(t).network.name) if Address.from_string(t).type == Address.Type.PublicKey else ('scripthash', Address.from_string(t).network.name),
    'wif': lambda t: ('wif', PrivateKey.from_wif(t).network.name),
    'xprv': lambda t: ('xprv', HDPrivateKey.from_string(t).network.name),
    'xpub': lambda t: ('xpub', HDPublicKey.from_string(t).network.name),
}
FAMILY = (BitforgeError, ValueError)


def expected(raw):
    """(kind, network) of a base58check payload, or None"""
    for net, c in STD.items():
        if len(raw) == 21 and raw[0] == c['pubkeyhash']: return 'pubkeyhash', net
        if len(raw) == 21 and raw[0] == c['scripthash']: return 'scripthash', net
        if raw[:1] == bytes([c['wif_prefix']]) and (len(raw) == 33 or len(raw) == 34 and raw[33] == 1) and 0 < int.from_bytes(raw[1:33], 'big') < N: return 'wif', net
        if len(raw) == 78 and raw[:4] == c['hd_private_key'].to_bytes(4, 'big') and raw[45] == 0 and 0 < int.from_bytes(raw[46:], 'big') < N: return 'xprv', net
        if len(raw) == 78 and raw[:4] == c['hd_public_key'].to_bytes(4, 'big') and ec.sec_parse(raw[45:]) is not None: return 'xpub', net
    return None


def text(raw, rep):
    rep.state('payload', raw)
    want = expected(raw)
    t = B.b58cenc(raw)
    for name, reader in READERS.items():
        mine = want is not None and (want[0] == name or (want[0] == 'scripthash' and name == 'pubkeyhash'))
        agree(rep, 'reading %s as %s' % (t, name), want if mine else None, reader, (t,), FAMILY)


def lookup(value, attr, rep):
    rep.state('find', attr, value); rep.step(2)
    want = next((n for n in STD if attr in STD[n] and STD[n][attr] == value), None)
    k, v = call(networks.find, value, attr)
    if want is None:
        if k == 'ok' or not isinstance(v, networks.UnknownNetwork) or not isinstance(v, BitforgeError): rep.fail('find(%r, %r) gives %r' % (value, attr, v))
        if not str_of(v): rep.fail('the error of find(%r, %r) cannot be printed' % (value, attr))
        rep.equal(networks.find(value, attr, raises=False), None, 'find(%r, %r, raises = False)' % (value, attr))
        rep.outcome('unknown')
    else:
        if k == 'err' or v is not NETS[want]: rep.fail('find(%r, %r) gives %r' % (value, attr, v))
        rep.equal(networks.find(value, attr, raises=False), NETS[want], 'find(%r, %r, raises = False)' % (value, attr))
        rep.outcome('found')


def cases(tier):
    t = tier == 'thorough'
    yield ('constants',)
    for attr in PREFIX:
        for lo in range(0, 70000 if not t else 2 ** 20, 10000): yield ('values', attr, lo, lo + 10000)
        yield ('near', attr)
    for attr in ('magic', 'port'): yield ('near', attr)
    for net in NETNAMES: yield ('names', net)
    yield ('attributes',)
    for i in range(40 if not t else 400): yield ('objects', i)
    for v in range(0, 256, 8): yield ('prefixes', v)
    for net in NETNAMES:
        for lo in range(0, 32): yield ('fields', net, lo)
        for i in range(8): yield ('like', net, i)
        for k in (range(2, 256) if t else range(2, 256, 8)): yield ('sizes', net, 2 ** k + k)
        for i in range(12): yield ('derive', net, i)
    for net in NETNAMES:
        for kind in ('xprv', 'xpub'):
            for i in range(4): yield ('versions', net, kind, i)


def run(case, rep):
    kind = case[0]
    if kind == 'constants':
        for n, c in STD.items():
            for a, v in c.items():
                rep.step(); rep.state('constant', n, a)
                rep.equal(getattr(NETS[n], a), v, '%s.%s' % (n, a))
            rep.check(all(isinstance(s, str) and '.' in s for s in NETS[n].seeds) and len(set(NETS[n].seeds)) == len(NETS[n].seeds), 'seeds of %s', n)
            rep.check(networks.find(NETS[n]) is NETS[n], 'find(%s)', n)
            hash(NETS[n])
            for a in c:
                k, v = call(setattr, NETS[n], a, 1)
                rep.check(k == 'err' and getattr(NETS[n], a) == c[a], '%s.%s can be reassigned', n, a)
        rep.check(networks.default is networks.livenet and networks.livenet != networks.testnet, 'the default network is not livenet')
        rep.outcome('constants')
    elif kind == 'values':
        for v in range(case[2], case[3]): lookup(v, case[1], rep)
    elif kind == 'near':
        attr = case[1]
        near = set()
        for n in STD:
            v = STD[n][attr]
            near |= {v} | {v ^ (1 << i) for i in range(40)} | {v ^ (1 << i) ^ (1 << j) for i in range(32) for j in range(i)} | {v + d for d in range(-300, 301)} | {-v, int.from_bytes(v.to_bytes(4, 'big'), 'little')}
            for other in STD[n].values(): near.add(other)
        near |= {s << k for s in (1, -1) for k in range(0, 70)} | {(1 << k) + d for k in range(0, 70) for d in (-1, 1)}
        near |= {'', '0', '111', b'', b'\0', None}
        for v in sorted(near, key=repr):
            lookup(v, attr, rep)
    elif kind == 'names':
        n = case[1]
        for v in [n, n.upper(), n.title(), n + ' ', ' ' + n, n + '\n', '', n[::-1], 'mainnet', 'bitcoin', 'default', 'regtest', None, 0, 1, b'livenet'] + list(edits(n, 'abcdefghijklmnopqrstuvwxyz0 ')): lookup(v, 'name', rep)
        rep.check(PrivateKey(1, n).network is NETS[n] and Address(b'\1' * 20, n).network is NETS[n], 'networks given by name %s', n)
        rep.check(PublicKey.from_bytes(pub(1), n).network is NETS[n], 'networks given by name %s', n)
        for bad in (n.upper(), n + '2', '', 0, None, 128):
            refused(rep, BitforgeError, 'PrivateKey(1, %r)' % (bad,), PrivateKey, 1, bad)
            refused(rep, BitforgeError, 'Address(.., %r)' % (bad,), Address, b'\1' * 20, bad)
            refused(rep, BitforgeError, 'PublicKey.from_bytes(.., %r)' % (bad,), PublicKey.from_bytes, pub(1), bad)
    elif kind == 'attributes':
        for attr in ('wif', 'pubkey', 'Name', 'address', 'prefix', 'hd', 'xpub', 'network', 'id', 'foo', 'a_b', 'NAME', 'pubkey_hash', 'version'):
            for v in (0, 5, 111, 'livenet', None): lookup(v, attr, rep)
    elif kind == 'objects':
        i = case[1]
        secret = int.from_bytes(patterned(32, i), 'big') % (N - 1) + 1
        h = patterned(20, i)
        for net in NETNAMES:
            c = STD[net]
            for comp in (True, False):
                raw = bytes([c['wif_prefix']]) + secret.to_bytes(32, 'big') + (b'\1' if comp else b'')
                rep.equal(PrivateKey(secret, NETS[net], comp).to_wif(), B.b58cenc(raw), 'WIF on %s' % net)
                text(raw, rep)
                raw = bytes([c['pubkeyhash']]) + B.hash160(pub(secret, comp))
                key = PrivateKey(secret, net, comp)
                rep.equal(key.to_public_key().to_address().to_string(), B.b58cenc(raw), 'address on %s' % net)
                text(raw, rep)
            for ty, a in ((Address.Type.PublicKey, 'pubkeyhash'), (Address.Type.Script, 'scripthash')):
                raw = bytes([c[a]]) + h
                rep.equal(Address(h, NETS[net], ty).to_string(), B.b58cenc(raw), 'address on %s' % net)
                text(raw, rep)
            rep.equal(Address.from_script(Script.from_bytes(b'\x51'), NETS[net]).to_string(), B.b58cenc(bytes([c['scripthash']]) + B.hash160(b'\x51')), 'script address on %s' % net)
            raw = c['hd_private_key'].to_bytes(4, 'big') + b'\0' * 9 + patterned(32, i + 1) + b'\0' + secret.to_bytes(32, 'big')
            text(raw, rep)
            x = HDPrivateKey.from_string(B.b58cenc(raw))
            rep.equal(x.to_string(), B.b58cenc(raw), 'extended key on %s' % net)
            raw = c['hd_public_key'].to_bytes(4, 'big') + b'\0' * 9 + patterned(32, i + 1) + pub(secret)
            text(raw, rep)
            rep.equal(x.to_hd_public_key().to_string(), B.b58cenc(raw), 'extended public key on %s' % net)
    elif kind == 'fields':                    # extended keys with fields of every size
        _, net, k = case
        c = STD[net]
        for v in (2 ** k, 2 ** (k + 1) - 1, 0xa5a5a5a5 >> k):
            for ver, key in (('hd_private_key', b'\0' + (77).to_bytes(32, 'big')), ('hd_public_key', pub(77))):
                for depth, parent, index in ((v % 255 + 1, v, v), (1, v, 5), (1, 5, v), (255, 2 ** 32 - 1 - v, v), (k + 1, v, 2 ** 31)):
                    raw = c[ver].to_bytes(4, 'big') + bytes([depth]) + parent.to_bytes(4, 'big') + index.to_bytes(4, 'big') + patterned(32, k) + key
                    text(raw, rep)
                    x = (HDPrivateKey if ver == 'hd_private_key' else HDPublicKey).from_string(B.b58cenc(raw))
                    rep.equal((x.network.name, x.to_string()), (net, B.b58cenc(raw)), 'extended key %s' % raw.hex())
                    if ver == 'hd_private_key': rep.equal(x.to_hd_public_key().network.name, net, 'network of the public side')
    elif kind == 'like':                      # payloads with every first and last byte
        _, net, i = case
        c = STD[net]
        for j, h in enumerate(bytelike(patterned(20, 2))):
            if j % 8 == i:
                for a in ('pubkeyhash', 'scripthash'): text(bytes([c[a]]) + h, rep)
        for j, h in enumerate(bytelike(patterned(32, 2))):
            if j % 8 == i:
                for end in (b'', b'\1'): text(bytes([c['wif_prefix']]) + h + end, rep)
    elif kind == 'sizes':
        _, net, d = case
        for comp in (True, False):
            raw = bytes([STD[net]['wif_prefix']]) + d.to_bytes(32, 'big') + (b'\1' if comp else b'')
            key = PrivateKey.from_wif(B.b58cenc(raw))
            rep.equal((key.network.name, key.to_wif(), key.to_public_key().network.name, key.to_address().network.name), (net, B.b58cenc(raw), net, net), 'networks from the secret %d' % d)
            rep.equal(key.to_address().to_string(), B.b58cenc(bytes([STD[net]['pubkeyhash']]) + B.hash160(pub(d, comp))), 'address of the secret %d' % d)
            text(raw, rep)
    elif kind == 'derive':                    # every chain of conversions and derivations stays on its network
        _, net, i = case
        raw = STD[net]['hd_private_key'].to_bytes(4, 'big') + b'\0' * 9 + patterned(32, i + 9) + b'\0' + patterned(32, i + 3)
        def walk(x, depth, path):
            rep.state('derive', net, i, path); rep.step()
            names = {'x': x.network.name, 'text': type(x).from_string(x.to_string()).network.name}
            if isinstance(x, HDPrivateKey):
                k = x.to_private_key()
                names.update(priv=k.network.name, wif=PrivateKey.from_wif(k.to_wif()).network.name, pub=x.to_hd_public_key().network.name)
                pk = k.to_public_key()
                names['address'] = Address.from_string(k.to_address().to_string()).network.name
            else: pk = x.to_public_key()
            names.update(pk=pk.network.name, pkaddress=Address.from_string(pk.to_address().to_string()).network.name)
            for n, v in names.items(): rep.equal(v, net, 'network of %s at %s' % (n, path))
            kinds = x.to_string()[:4]
            rep.equal(kinds, {'livenet': ('xprv', 'xpub'), 'testnet': ('tprv', 'tpub')}[net][not isinstance(x, HDPrivateKey)], 'text of %s' % (path,))
            rep.outcome('stays')
            if depth == 0: return
            if isinstance(x, HDPrivateKey):
                walk(x.to_hd_public_key(), depth - 1, path + ('pub',))
                for a in ((i * 37 % 1000, False), (i, True)): walk(x.derive(*a), depth - 1, path + (a,))
            else: walk(x.derive(i * 91), depth - 1, path + (i * 91,))
        walk(HDPrivateKey.from_string(B.b58cenc(raw)), 2, ())
    elif kind == 'prefixes':
        for v in range(case[1], case[1] + 8):
            p = bytes([v])
            for body in (patterned(20, v), patterned(32, v), patterned(32, v) + b'\1', patterned(31, v), patterned(21, v), patterned(19, v), patterned(77, v)): text(p + body, rep)
    elif kind == 'versions':
        _, net, k, i = case
        std = STD[net]['hd_private_key' if k == 'xprv' else 'hd_public_key'].to_bytes(4, 'big')
        key = b'\0' + (77).to_bytes(32, 'big') if k == 'xprv' else pub(77)
        for v in range(256):
            ver = std[:i] + bytes([v]) + std[i + 1:]
            text(ver + b'\0' * 9 + patterned(32, 5) + key, rep)
        for ver in ('hd_private_key', 'hd_public_key'):
            for n in NETNAMES: text(STD[n][ver].to_bytes(4, 'big') + b'\0' * 9 + patterned(32, 5) + key, rep)

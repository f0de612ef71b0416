"""C06: signing and checking with a private key."""
from ..common import *
from .. import entropy

ID = 'C06'
RULE = ('State: (secret, digest, entropy stream). The entropy source is an enumerated environment choice; digests are solved for so '
        'that R and S take every DER-relevant size. Each signature is parsed by an independent strict DER parser, must have low S and '
        'verify by the ECDSA equations of an independent secp256k1. verify() is compared with the same equations on valid and tampered '
        '(signature, digest, key) triples.')
BOUNDS = {
    'quick': '5 secrets x 8 nonces (short R included) x 13 target S values, 6 odd entropy streams x 4 secrets x 6 digests; 3 secrets x 26 '
             'constructed (r, s) x digest/key variations; every byte of 2 signatures changed in 2 ways, all truncations, 256 one-bit digest '
             'changes; 12 endings of S x 12 trailing variants; digests of 15 lengths 1..64; 6 signatures x 33 other encodings; 940 pairs of secrets and digests of every bit length, for each kind of key; 273 signatures whose R is off by one bit or a common modulus',
    'thorough': '9 secrets x 14 nonces x 40 target S values; all 8 bit flips of every byte of 3 signatures, 256 one-bit digest changes for 3 keys; digests of every length 1..65',
}
HALF = N // 2
SECRETS = [1, 2, N - 1, int.from_bytes(patterned(32, 21), 'big') % N, 255 << 240 & (2 ** 255 - 1), 2 ** 128, N // 2, 3, N - 2]
NONCES = [1, 2, 153, 246, 44629, N - 1, N // 3, int.from_bytes(patterned(32, 22), 'big') % N, 58165, 3, 122, 2 ** 200, N - 153, 886]


def targets(tier):
    base = [1, 127, 128, 255, 256, 2 ** 127, 2 ** 247, 2 ** 248 - 1, HALF - 1, HALF, HALF + 1, N - 128, N - 1]
    if tier == 'thorough':
        base += [2, 3, 32767, 32768, 65535, 65536] + [2 ** (8 * k) - 1 for k in range(3, 31)] + [2 ** (8 * k - 1) for k in range(3, 32, 4)]
    return base


def cases(tier):
    t = tier == 'thorough'
    for d in SECRETS[:9 if t else 5]:
        for k in NONCES[:14 if t else 8]: yield ('solved', d, k, tier)
    for d in SECRETS[:4]:
        for i in range(6): yield ('stream', d, i)
    for d in SECRETS[1:4]:
        for k in (1, 153, NONCES[7]):
            for part in range(3): yield ('verify', d, k, part)
    for d in SECRETS[1:4 if t else 2]:
        for lo in range(0, 256, 8): yield ('digestbits', d, lo)
    for d in SECRETS[1:3 if t else 2]:
        for i in range(12 if not t else 24): yield ('ends', d, i)
        for n in (range(1, 66) if t else (1, 2, 8, 16, 20, 24, 30, 31, 32, 33, 34, 36, 40, 48, 64)): yield ('length', d, n)
        for i in range(6): yield ('encodings', d, i)
    for part in range(32): yield ('sizes', part, t)
    for i in range(0, len(ec.GAPS), 20): yield ('near', i, t)
    for i in range(3 if t else 2):
        for pos in range(0, 72, 3): yield ('tamper', i, pos, 8 if t else 2)


def digest_for(d, k, s):
    r = ec.mul_g(k)[0] % N
    return ((s * k - r * d) % N).to_bytes(32, 'big')


def check_sig(rep, d, digest, sig, what):
    sig = bytes(sig)
    rep.traces += 1
    rs = B.der_parse(sig)
    rep.check(rs is not None, lambda: '%s: not strict DER: %s' % (what, sig.hex()))
    rep.check(rs[1] <= HALF, lambda: '%s: high S: %s' % (what, sig.hex()))
    rep.check(ec.verify(ec.mul_g(d), int.from_bytes(digest, 'big'), *rs), lambda: '%s: invalid signature %s' % (what, sig.hex()))
    rep.outcome('signature of %d bytes' % len(sig))


def check_verify(rep, d, digest, sig, what):
    rep.step()
    e = int.from_bytes(digest, 'big')
    q = ec.mul_g(d)
    rs = B.der_parse(sig)
    valid = rs is not None and len(digest) <= 32 and ec.verify(q, e, *rs)
    kind, got = call(PrivateKey(d).verify, sig, digest)
    said = kind == 'ok' and bool(got)
    rep.state('verify', d, digest, sig)
    rep.traces += 1
    if said != valid:
        rep.fail('%s: verify(%s, %s) with key %d gives %r, expected %s' % (what, sig.hex(), digest.hex(), d, got, valid))
    rep.outcome('confirmed' if valid else 'rejected')


def run(case, rep):
    kind = case[0]
    if kind == 'solved':
        _, d, k, tier = case
        for s in targets(tier):
            digest = digest_for(d, k, s)
            for stream in ((k - 1).to_bytes(32, 'big'),):
                entropy.script(entropy.Counter(stream))
                sig = PrivateKey(d).sign(digest)
                entropy.script(None)
                rep.step()
                rep.state(d, k, s)
                check_sig(rep, d, digest, sig, 'key %d, entropy %s, digest %s' % (d, stream.hex(), digest.hex()))
        rep.sample('key %d, nonce %d, digests for %d values of S' % (d, k, len(targets(tier))))
    elif kind == 'stream':
        _, d, i = case
        stream = [b'\0' * 64, b'\xff' * 32 + b'\0' * 32, (N - 1).to_bytes(32, 'big') + (N - 2).to_bytes(32, 'big'), b'\x80' * 96,
                  b'\xff' * 320, b'\0' * 31 + b'\1'][i]
        for digest in (b'\0' * 32, b'\xff' * 32, N.to_bytes(32, 'big'), (N - 1).to_bytes(32, 'big'), b'\0' * 31 + b'\1', patterned(32, i)):
            entropy.script(entropy.Counter(stream, i))
            sig = PrivateKey(d, 'testnet', False).sign(digest)
            entropy.script(None)
            rep.step()
            rep.state(d, stream, digest)
            check_sig(rep, d, digest, sig, 'key %d, entropy %s..., digest %s' % (d, stream[:33].hex(), digest.hex()))
            if i == 5:
                check_verify(rep, d, digest, bytes(sig), 'own signature')
    elif kind == 'verify':
        _, d, k, part = case
        digest = patterned(32, 31)
        e = int.from_bytes(digest, 'big')
        r, s = ec.sign(d, e, k)
        if part == 0:
            for rr, ss, what in ((r, s, 'valid'), (r, N - s, 'valid, other S'), (s, r, 'swapped'), (N - r, s, 'negated R'), (r, s + 1, 'S+1'),
                                 (r + 1, s, 'R+1'), (r, s + N, 'S+order'), (1, 1, 'ones'), (r, 1, 'S=1'), (1, s, 'R=1')):
                check_verify(rep, d, digest, B.der(rr, ss), what)
        elif part == 1:
            for sig, what in ((B.der(0, s), 'R=0'), (B.der(r, 0), 'S=0'), (b'', 'empty'), (B.der(r, s)[:-1], 'cut'), (B.der(r, s) + b'\1', 'hash type'),
                              (b'\x30\x00', 'hollow'), (B.der(N, s), 'R=order'), (B.der(r, N), 'S=order'), (B.der(0, 0), 'zero')):
                check_verify(rep, d, digest, sig, what)
        else:
            sig = B.der(r, s)
            for other in (d + 1, N - d, 7):
                if 0 < other < N and other != d: check_verify(rep, other, digest, sig, 'another key')
            for dg in (digest[::-1], digest[1:] + digest[:1], b'\0' * 32, ((e + N) % 2 ** 256).to_bytes(32, 'big'), bytes(b ^ 255 for b in digest),
                       digest[:31] + bytes([digest[31] ^ 1])):
                check_verify(rep, d, dg, sig, 'another digest')
    elif kind == 'near':                      # signatures whose R misses the computed one by a bit or a common modulus
        for j, gap in enumerate(ec.GAPS[case[1]:case[1] + 20]):
            if not case[2] and j % 2: continue
            k, s = 2000 + case[1] + j, 54321 + j
            r = (ec.mul_g(k)[0] + gap) % N
            digest = patterned(32, 40 + j)
            d = (s * k - int.from_bytes(digest, 'big')) * pow(r, -1, N) % N if r else 0
            if d: check_verify(rep, d, digest, B.der(r, s), 'R off by %d' % gap)
    elif kind == 'sizes':                     # secrets and digests of every bit length and with every first and last byte, all kinds of key
        _, part, t = case
        digests = [v.to_bytes(32, 'big') for k in range(257) for v in (2 ** k - 1, 2 ** k) if v < 2 ** 256] + [b for b in bytelike(patterned(32, 67))] + [(N + d).to_bytes(32, 'big') for d in (-2, -1, 0, 1, 2)] + [(HALF + d).to_bytes(32, 'big') for d in (-1, 0, 1, 2)]
        secrets_ = [v for k in range(257) for v in (2 ** k - 1, 2 ** k, N - 2 ** k) if 0 < v < N]
        for i in range(max(len(digests), len(secrets_))):
            if i % 32 != part or not t and (i // 32) % 3 == 1: continue
            d, digest = secrets_[i % len(secrets_)], digests[i * 7 % len(digests)]
            net, comp = NETNAMES[i % 2], i // 2 % 2 == 0
            key = PrivateKey(d, net, comp)
            entropy.script(entropy.Counter(patterned(32, 68 + i)))
            sig = bytes(key.sign(digest))
            entropy.script(None)
            rep.step(2)
            rep.state('sizes', d, digest)
            check_sig(rep, d, digest, sig, 'key %d (%s, %s), digest %s' % (d, net, comp, digest.hex()))
            for sg, dg, valid in ((sig, digest, True),) if not t and i % 4 else ((sig, digest, True), (sig, digest[:31] + bytes([digest[31] ^ 1]), False), (B.der(*ec.sign(d, int.from_bytes(digest, 'big'), 99 + i)), digest, True)):
                kind_, got = call(key.verify, sg, dg)
                rep.check(kind_ == 'ok' and bool(got) is valid or kind_ == 'err' and not valid, lambda: 'verify(%s, %s) with key %d (%s, %s) gives %r, expected %s' % (sg.hex(), dg.hex(), d, net, comp, got, valid))
                rep.outcome('confirmed' if valid else 'rejected')
    elif kind == 'digestbits':
        _, d, lo = case
        digest = patterned(32, 41)
        sig = B.der(*ec.sign(d, int.from_bytes(digest, 'big'), 1234567))
        for bit in range(lo, lo + 8):
            bad = bytearray(digest)
            bad[bit // 8] ^= 1 << (bit % 8)
            check_verify(rep, d, bytes(bad), sig, 'digest bit %d' % bit)
        check_verify(rep, d, digest, sig, 'untouched')
    elif kind == 'ends':                      # signatures that end in bytes that look like hash types or padding
        _, d, i = case
        last = (0x01, 0x02, 0x03, 0x81, 0x82, 0x83, 0x00, 0x80, 0xff, 0x30, 0x20, 0x7f)[i % 12]
        k = NONCES[7] + i
        s = (int.from_bytes(patterned(32, 60 + i), 'big') % HALF) >> 8 << 8 | last
        digest = digest_for(d, k, s)
        r = ec.mul_g(k)[0] % N
        sig = B.der(r, s)
        check_verify(rep, d, digest, sig, 'S ends in %02x' % last)
        check_verify(rep, d, digest, sig[:-1], 'S ends in %02x, last byte missing' % last)
        check_verify(rep, d, digest, bytes([48, sig[1] - 1]) + sig[2:-1], 'S ends in %02x, last byte missing, total adjusted' % last)
        for extra in (0, 1, 2, 3, 0x81, last, 0xff): check_verify(rep, d, digest, sig + bytes([extra]), 'trailing byte %02x' % extra)
        check_verify(rep, d, digest, sig + sig, 'twice')
        check_verify(rep, d, digest, sig + b'\0' * 8, 'trailing zeros')
        entropy.script(entropy.Counter((k - 1).to_bytes(32, 'big')))
        own = bytes(PrivateKey(d).sign(digest))
        entropy.script(None)
        check_sig(rep, d, digest, own, 'S ends in %02x' % last)
        check_verify(rep, d, digest, own, 'own signature')
    elif kind == 'length':                    # digests of other lengths
        _, d, n = case
        if n:
            for digest in (patterned(n, 62), b'\0' * n, patterned(min(n, 32), 63) + b'\0' * (n - 32), b'\0' * max(0, n - 32) + patterned(min(n, 32), 64)):
                if len(digest) != n: continue
                e = int.from_bytes(digest, 'big')
                for number in ({e, int.from_bytes(digest[:32], 'big'), int.from_bytes(digest[-32:], 'big')} if n > 32 else {e}):
                    check_verify(rep, d, digest, B.der(*ec.sign(d, number, 7654321 + n)), 'digest of %d bytes' % n)
                entropy.script(entropy.Counter(patterned(32, 65)))
                k, sig = call(PrivateKey(d).sign, digest)
                entropy.script(None)
                rep.step()
                if n > 32: rep.check(k == 'err', 'a digest of %d bytes was signed', n)
                else:
                    rep.check(k == 'ok', 'a digest of %d bytes was not signed: %s', n, sig)
                    check_sig(rep, d, digest, sig, 'digest of %d bytes' % n)
    elif kind == 'encodings':                 # other encodings of a valid (r, s)
        _, d, i = case
        digest = patterned(32, 66 + i)
        r, s = ec.sign(d, int.from_bytes(digest, 'big'), NONCES[i])
        def num(v, pad=0, long=0):
            b = B.der(v, v)
            body = b'\0' * pad + b[4:4 + b[3]]
            return b'\2' + bytes([0x80 + long] + [0] * (long - 1) if long else []) + bytes([len(body)]) + body
        def seq(body, delta=0, long=0): return b'\x30' + bytes([0x80 + long] + [0] * (long - 1) if long else []) + bytes([(len(body) + delta) & 255]) + body
        good = num(r) + num(s)
        rep.equal(seq(good), B.der(r, s), 'encoder')
        for sig, what in ([(seq(good), 'plain')] + [(seq(good, delta), 'total off by %d' % delta) for delta in (-3, -2, -1, 1, 2, 3, 64)]
                          + [(seq(num(r, pad) + num(s, pad2)), 'padding %d, %d' % (pad, pad2)) for pad in (0, 1, 2) for pad2 in (0, 1, 2) if pad or pad2]
                          + [(seq(good, 0, n), 'long total') for n in (1, 2, 4)]
                          + [(seq(num(r, 0, n) + num(s)), 'long length of R') for n in (1, 2)] + [(seq(num(r) + num(s, 0, n)), 'long length of S') for n in (1, 2)]
                          + [(seq(good + num(1)), 'a third number'), (seq(num(s) + num(r)), 'swapped'), (b'\x31' + seq(good)[1:], 'a set'),
                             (seq(b'\3' + num(r)[1:] + num(s)), 'a bit string'), (seq(num(r) + b'\4' + num(s)[1:]), 'an octet string'), (seq(seq(good)), 'nested'),
                             (seq(good)[:2] + good[::-1], 'reversed'), (good, 'no envelope'), (r.to_bytes(32, 'big') + s.to_bytes(32, 'big'), 'raw'),
                             (B.der(N - r, s), 'R negated'), (B.der(r, N - s), 'high S'), (B.der(r + N, s), 'R + order'), (B.der(r, s + N), 'S + order')]):
            check_verify(rep, d, digest, sig, what)
    elif kind == 'tamper':
        _, i, pos, n = case
        d = SECRETS[1 + i]
        digest = patterned(32, 51 + i)
        sig = B.der(*ec.sign(d, int.from_bytes(digest, 'big'), NONCES[7] + i))
        for p in range(pos, min(pos + 3, len(sig))):
            for bit in ([0, 7] if n == 2 else range(8)):
                bad = bytearray(sig)
                bad[p] ^= 1 << bit
                check_verify(rep, d, digest, bytes(bad), 'byte %d bit %d' % (p, bit))
            check_verify(rep, d, digest, sig[:p], 'cut at %d' % p)

"""C13: outputs, and the inputs that redeem them."""
from ..common import *
from ..spend import *

ID = 'C13'
RULE = ('State: (kind of output, destination, amount). Scripts, amounts and serialized bytes of created outputs are compared with '
        'independently built standard scripts; the placeholder of the matching input must be the same condition; and for each kind the '
        'locked output is spent: the input is signed and run by an independent interpreter against the script of the output.')
BOUNDS = {
    'quick': 'addresses: 2 networks x 2 types x 550 hashes (every first and last byte); amounts 2^k, 2^k +- 1 up to 2^64 - 1 for every kind; scripts of all lengths '
             '0..600 and around 2^16; multi-signature groups: every m <= n <= 4 over every ordering of keys, with repetitions, and n <= 15; data of every '
             'length 0..300 and with every first and last byte; keys of 43 sizes (thorough: every size); 16 kinds of scripts nested up to 3 times; 24 locked and spent outputs',
    'thorough': 'multi-signature groups: every m of n <= 16 and every ordering of 5 keys; 60 locked and spent outputs',
}
KEYS = [(31, True, 'livenet'), (32, False, 'livenet'), (33, True, 'testnet'), (34, True, 'livenet'), (35, False, 'testnet')]
TXID = patterned(32, 71).hex()
AMOUNTS = sorted({0, 546, 10 ** 8, 21 * 10 ** 14} | {v for k in range(64) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1)} | {2 ** 64 - 1})


def hashes():
    out = [b'\0' * 20, b'\xff' * 20, b'\0' + patterned(19, 1), patterned(19, 2) + b'\0', bytes(range(20))]
    for b in range(0, 256): out += [bytes([b]) + patterned(19, 7), patterned(19, 8) + bytes([b])]
    for i in range(20): out.append(b'\0' * i + b'\x81' + b'\0' * (19 - i))
    for i in range(15): out.append(patterned(20, 100 + i))
    return out


def cases(tier):
    t = tier == 'thorough'
    for i in range(len(hashes())): yield ('address', i)
    for k in ('address', 'script', 'multi', 'generic'):
        for part in range(4): yield ('amounts', k, part)
    for lo in range(0, 601, 30): yield ('script', lo, lo + 30)
    for lo in (1000, 10000, 65533, 65535, 65537): yield ('script', lo, lo + 2)
    pool = 5 if t else 4
    for n in range(1, pool + 1):
        for perm in itertools.permutations(range(pool), n): yield ('multi', perm)
    for n in range(5, 17): yield ('group', n)
    for n in range(2, 6 if t else 5):
        for ks in itertools.product(range(3), repeat=n):
            if len(set(ks)) < n: yield ('multi', ks)                 # keys that have several shares
    for lo in range(0, 300, 25): yield ('data', lo, lo + 25)
    for b in range(0, 256, 32): yield ('bytes', b, b + 32)
    for k in (range(2, 256) if t else range(3, 256, 6)): yield ('size', 2 ** k + k)
    for i in range(24 if not t else 60): yield ('spend', i)
    for i in range(len(list(redeems()))): yield ('redeem', i)


def same(rep, out, amount, script, what, cls=Output):
    rep.step()
    rep.check(isinstance(out, cls), '%s: got %s', what, type(out))
    rep.equal((out.amount, out.script.to_bytes()), (amount, script), what)
    want = T.ser_out((amount, script))
    rep.equal(out.to_bytes(), want, what + ', serialized')
    rep.equal(vout(Output.from_bytes(want)), (amount, script), what + ', read back')


def redeems():
    base = [b'\x51', b'', p2pkh(patterned(20, 3)), b'\xa9\x14' + patterned(20, 3) + b'\x87', multisig(1, [pub(31)]), multisig(2, [pub(31), pub(32, False)]),
            b'\x6a\x04data', T.push(patterned(71, 4)) + T.push(pub(31)), b'\0' + T.push(patterned(71, 4)) + T.push(b'\x51'), T.push(pub(31)) + b'\xac',
            b'\x00', b'\x6a', T.push(patterned(20, 5)), b'\x00\x14' + patterned(20, 6), b'\x00\x20' + patterned(32, 7), b'\xa9\x4c\x14' + patterned(20, 3) + b'\x87']
    for s in base:
        yield s
        for _ in range(3):                    # the script hash of a script hash of ...
            s = p2sh(s)
            yield s


def run(case, rep):
    kind = case[0]
    if kind == 'address':
        h = hashes()[case[1]]
        for net in NETNAMES:
            for typ in (Address.Type.PublicKey, Address.Type.Script):
                for amount in (0, 1, 5000, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
                    rep.state('address', h, net, typ.name, amount)
                    want = p2pkh(h) if typ is Address.Type.PublicKey else b'\xa9\x14' + h + b'\x87'
                    what = '%d to the %s address of %s on %s' % (amount, typ.name, h.hex(), net)
                    out = AddressOutput.create(amount, Address(h, NETS[net], typ))
                    same(rep, out, amount, want, what)
                    same(rep, AddressOutput.create(amount, Address.from_string(Address(h, NETS[net], typ).to_string())), amount, want, what + ' from text')
                    if typ is Address.Type.PublicKey:
                        rep.equal(out.script.get_address_hash(), h, what + ': hash read back')
                        for seq in (None, 0, 5, 2 ** 32 - 1):
                            inp = AddressInput.create(TXID, 7, Address(h, NETS[net], typ), *([] if seq is None else [seq]))
                            rep.equal(vin(inp), (TXID, 7, want, 2 ** 32 - 1 if seq is None else seq), 'input for %s' % what)
                    rep.outcome(typ.name)
        rep.sample('address with hash %s' % h.hex())
    elif kind == 'amounts':
        for i, a in enumerate(AMOUNTS):
            if i % 4 != case[2] or a >= 2 ** 64: continue
            rep.state(case[1], a)
            if case[1] == 'address': same(rep, AddressOutput.create(a, Address(hashes()[9])), a, p2pkh(hashes()[9]), '%d to an address' % a)
            elif case[1] == 'script': same(rep, ScriptOutput.create(a, Script.from_bytes(b'\x51')), a, p2sh(b'\x51'), '%d to a script' % a)
            elif case[1] == 'multi':
                pubs = [key_pub(k) for k in KEYS[:2]]
                same(rep, MultisigOutput.create(a, [PublicKey.from_bytes(p) for p in pubs], 1), a, p2sh(multisig(1, pubs)), '%d to a group' % a)
            else:
                for s in (b'', b'\x51', p2pkh(hashes()[8]), p2sh(b'\x52'), b'\x6a\x02hi', T.push(pub(31)) + b'\xac', multisig(1, [pub(31)])):
                    same(rep, Output.create(a, Script.from_bytes(s)), a, s, '%d to script %s' % (a, s.hex()))
                    same(rep, Output(a, Script.from_bytes(s)), a, s, '%d to script %s' % (a, s.hex()))
        rep.outcome('amounts')
    elif kind == 'script':
        for n in range(case[1], case[2]):
            for s in (b'\x61' * n, T.push(patterned(n, n)) if n else b'', patterned_script(n)):
                rep.state('script', s)
                sc = Script.from_bytes(s)
                same(rep, ScriptOutput.create(77, sc), 77, p2sh(s), 'output for a script of %d bytes' % len(s))
                rep.equal(ScriptOutput.create(77, sc).script.get_script_hash(), B.hash160(s), 'hash read back')
                rep.equal(vin(ScriptInput.create(TXID, 1, sc, 3)), (TXID, 1, s, 3), 'input for a script of %d bytes' % len(s))
                for net in NETNAMES:
                    addr = Address.from_script(sc, NETS[net])
                    rep.equal(AddressOutput.create(5, addr).script.to_bytes(), p2sh(s), 'output to the address of that script')
        rep.outcome('scripts')
    elif kind == 'redeem':                    # scripts that are themselves templates, nested script hashes included
        s = list(redeems())[case[1]]
        sc = Script.from_bytes(s)
        for x in (sc, Script(sc.instructions), Script.create(sc.instructions)):
            rep.state('redeem', s)
            same(rep, ScriptOutput.create(78, x), 78, p2sh(s), 'output for the script %s' % s.hex())
            rep.equal(ScriptOutput.create(78, x).script.get_script_hash(), B.hash160(s), 'hash read back')
            rep.equal(script_module.PayToScriptOut.create(x).to_bytes(), p2sh(s), 'PayToScriptOut of %s' % s.hex())
            rep.equal(vin(ScriptInput.create(TXID, 1, x, 3)), (TXID, 1, s, 3), 'input for the script %s' % s.hex())
            for net in NETNAMES:
                rep.equal(AddressOutput.create(5, Address.from_script(x, NETS[net])).script.to_bytes(), p2sh(s), 'output to the address of that script')
        rep.outcome('scripts')
    elif kind == 'multi':
        specs = [KEYS[i] for i in case[1]]
        pubs = [key_pub(s) for s in specs]
        group(rep, pubs, [NETS[s[2]] for s in specs], range(1, len(pubs) + 1))
    elif kind == 'group':
        n = case[1]
        pubs = [pub(400 + i, n <= 7 and i % 2 == 0 or n > 7) for i in range(n)]
        group(rep, pubs, [NETS['livenet']] * n, range(1, n + 1))
    elif kind == 'data':
        for n in range(case[1], case[2]):
            for d in (patterned(n, 5), b'\0' * n, b'\x6a' * n):
                rep.state('data', d)
                if n == 0:
                    rep.step()
                    k, out = call(DataOutput.create, d)      # empty pushes are not supported yet (TODO.md)
                    if k == 'ok': rep.equal(out.amount, 0, 'amount of an empty data output')
                    continue
                if n > 80:
                    refused(rep, BitforgeError, 'data output of %d bytes' % n, DataOutput.create, d)
                    rep.outcome('too much data')
                else:
                    out = DataOutput.create(d)
                    same(rep, out, 0, b'\x6a' + T.push(d), 'data output of %d bytes' % n)
                    rep.equal(out.script.get_data(), d, 'data read back')
                    rep.outcome('data')
    elif kind == 'bytes':                     # data starting or ending with every byte, of several lengths
        for b in range(case[1], case[2]):
            for n in (1, 2, 3, 4, 5, 8, 20, 32, 33, 40, 64, 65, 75, 76, 77, 79, 80):
                for d in {bytes([b]) * n, bytes([b]) + patterned(n - 1, 9), patterned(n - 1, 9) + bytes([b])}:
                    rep.state('data', d)
                    out = DataOutput.create(d)
                    same(rep, out, 0, b'\x6a' + T.push(d), 'data output of %s' % d.hex())
                    rep.equal(out.script.get_data(), d, 'data read back')
        rep.outcome('data')
    elif kind == 'size':                      # keys of every size: outputs to them and their redemption
        d = case[1]
        c = d.bit_length() % 3 != 0
        spec, net = (d, c, 'livenet'), NETS['livenet']
        p = key_pub(spec)
        rep.state('size', d)
        group(rep, [p], [net], [1])
        group(rep, [key_pub(KEYS[0]), p], [net] * 2, [1, 2])
        group(rep, [p, key_pub(KEYS[1]), key_pub(KEYS[0])], [net] * 3, [2])
        priv = keys(spec)
        for out, inp, lock in ((AddressOutput.create(9, priv.to_address()), AddressInput.create(TXID, 0, priv.to_address()), p2pkh(B.hash160(p))),
                               (MultisigOutput.create(9, [priv.to_public_key()], 1), MultisigInput.create(TXID, 0, [priv.to_public_key()], 1), p2sh(multisig(1, [p])))):
            same(rep, out, 9, lock, 'output to the key %d' % d)
            data = view(Transaction([inp], [out]).sign([priv], 0))
            rep.step()
            rep.traces += 1
            rep.check(spends(data, 0, lock), 'key %d: %s does not redeem %s', d, data[1][0][2].hex(), lock.hex())
        rep.outcome('redeemed')
    elif kind == 'spend':
        i = case[1]
        spec = KEYS[i % 5]
        which = ('address', 'multi', 'script', 'multi')[i % 4]
        if which == 'address':
            priv = keys(spec)
            addr = priv.to_address()
            out, inp, signers = AddressOutput.create(9, addr), AddressInput.create(TXID, 0, addr), [priv]
        else:
            n = i % 3 + 1
            specs = [KEYS[(i + j) % 5] for j in range(n)]
            m = 1 + (i // 4) % n
            pubs = [keys(s).to_public_key() for s in specs]
            if which == 'multi':
                out, inp = MultisigOutput.create(9, pubs, m), MultisigInput.create(TXID, 0, pubs, m)
                signers = [keys(s) for s in specs[n - m:]]
            else:
                redeem = Script.from_bytes(multisig(m, [key_pub(s) for s in specs]))
                out, inp = ScriptOutput.create(9, redeem), ScriptInput.create(TXID, 0, redeem)
                signers = [keys(s) for s in specs[:m]]
        rep.state('spend', i)
        tx = Transaction([inp], [out])
        signed = tx.sign(signers, 0)
        data = view(signed)
        rep.step()
        rep.traces += 1
        rep.check(spends(data, 0, out.script.to_bytes()), '%s %d: %s does not redeem %s', which, i, data[1][0][2].hex(), out.script.to_bytes().hex())
        rep.outcome('redeemed')


def patterned_script(n):
    """n bytes of single-byte operations, each one different from the next."""
    return bytes(0x61 + i % 0x4f for i in range(n))


def group(rep, pubs, nets, ms):
    for m in ms:
        rep.state('multi', m, tuple(pubs))
        redeem = multisig(m, pubs)
        objs = [PublicKey.from_bytes(p, net) for p, net in zip(pubs, nets)]
        what = '%d of %s' % (m, [p.hex()[:10] for p in pubs])
        same(rep, MultisigOutput.create(m, objs, m), m, p2sh(redeem), what)
        same(rep, MultisigOutput.create(m, tuple(objs), m), m, p2sh(redeem), what)
        inp = MultisigInput.create(TXID, 2, objs, m, 4)
        rep.equal(vin(inp), (TXID, 2, redeem, 4), 'input for ' + what)
        rep.equal([p.to_bytes() for p in inp.script.get_public_keys()], pubs, 'keys of the input for ' + what)
        rep.equal(inp.script.get_min_signatures(), m, 'signatures of the input for ' + what)
        rep.equal(ScriptOutput.create(3, inp.script).script.to_bytes(), p2sh(redeem), 'script output of ' + what)
        rep.equal(vin(MultisigInput.create(TXID, 2, objs, m)), (TXID, 2, redeem, 2 ** 32 - 1), 'input for ' + what)
        rep.outcome('%d keys' % len(pubs))

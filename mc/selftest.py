"""Self-test of the references against published vectors; run by setup_cmd. Does not touch /repo."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from mc.ref import basics as B, ec, bip32, tx, vm

# Base58Check, hashes
assert B.b58cenc(b'\0' + B.hash160(ec.sec(ec.G))) == '1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH'
assert B.b58cenc(b'\x80' + (1).to_bytes(32, 'big') + b'\1') == 'KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn'
assert B.b58cenc(b'\x80' + (1).to_bytes(32, 'big')) == '5HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf'
assert B.b58cdec('1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH')[0] == 0 and B.b58cdec('1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMh') is None
# curve
assert ec.mul_g(2) == (0xC6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5,
                       0x1AE168FEA63DC339A3C58419466CEAEEF7F632653266D0E1236431A950CFE52A)
assert ec.mul_g(ec.N - 1) == (ec.G[0], ec.P - ec.G[1]) and ec.mul_g(0) is None
for k in (1, 2, 3, 12345, ec.N - 2, 2 ** 255 - 19): assert ec.mul_g(k) == ec.mul(k, ec.G) and ec.on_curve(*ec.mul_g(k))
assert ec.add(ec.mul_g(5), ec.mul_g(7)) == ec.mul_g(12) and ec.add(ec.mul_g(5), ec.mul_g(ec.N - 5)) is None
assert ec.verify(ec.mul_g(9), 77, *ec.sign(9, 77, 1234)) and not ec.verify(ec.mul_g(9), 78, *ec.sign(9, 77, 1234))
# RFC 6979 A.2.1 (163 bits), A.2.5 (P-256), and the usual secp256k1 vector
import hashlib
q = 0x4000000000000000000020108A2E0CC0D99F8A5EF
assert ec.rfc6979(q, 0x09A4D6792295A7F730FC3F2B49CBC0F62E862272F, hashlib.sha256(b'sample').digest()) == 0x23AF4074C90A02B3FE61D286D5C87F425E6BDD81B
q = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
assert ec.rfc6979(q, 0xC9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721, hashlib.sha256(b'sample').digest()) == \
    0xA6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60
assert ec.rfc6979(ec.N, 1, hashlib.sha256(b'Satoshi Nakamoto').digest()) == 0x8F8A276C19F4149656B280621E358CCE24F5F52542772691EE69063B74F15D15
# BIP32 vectors 1 and 2 (leaf of each chain)
m = bip32.master(bytes.fromhex('000102030405060708090a0b0c0d0e0f'))
assert m.text() == 'xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi'
n = m
for i in (bip32.H, 1, bip32.H + 2, 2, 1000000000): n = n.child(i)
assert n.text() == 'xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76'
assert n.neuter().text() == 'xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy'
# DER
good = B.der(1, 1) + b'\1'
assert B.strict_der(good) and B.der_parse(B.der(5, 200)) == (5, 200) and not B.strict_der(good[:-1])
# transactions and the signature hash: bitcoind's tx_valid.json (P2PKH / P2PK / multisig entries are verified end to end)
with open(os.path.join(here, 'vectors', 'tx_valid.json')) as f: data = json.load(f)
parsed = 0
for row in data:
    if len(row) < 3 or not isinstance(row[0], list): continue
    raw = bytes.fromhex(row[1])
    try: t = tx.parse(raw)
    except tx.Bad: continue
    assert tx.ser(t) == raw
    parsed += 1
assert parsed > 40, parsed


def asm(text):
    out = b''
    for w in text.split():
        if w.startswith('0x'): out += bytes.fromhex(w[2:])
        elif w.lstrip('-').isdigit():
            n = int(w)
            out += bytes([0 if n == 0 else 80 + n]) if -1 <= n <= 16 and n else (b'\0' if n == 0 else tx.push(B.num_enc(n)))
        elif w.startswith("'"): out += tx.push(w[1:-1].encode()) if len(w) > 2 else b'\0'
        else:
            name = w if w.startswith('OP_') else 'OP_' + w
            out += bytes([vm.NAMES[name]])
    return out


def checker(t, nin):
    def checksig(sig, key, code, flags):
        if not sig: return False
        rs = B.der_parse(sig[:-1]); pt = ec.sec_parse(key)
        if rs is None or pt is None: return False
        return ec.verify(pt[0], int.from_bytes(tx.sighash(t, nin, code, sig[-1]), 'big'), *rs)
    return checksig


checked = 0
for row in data:
    if len(row) < 3 or not isinstance(row[0], list): continue
    try: t = tx.parse(bytes.fromhex(row[1]))
    except tx.Bad: continue
    prev = {(h, n & 0xffffffff): s for h, n, s in row[0]}
    flags = 0
    for name in row[2].split(','):
        flags |= {'NONE': 0, 'P2SH': vm.P2SH, 'CHECKLOCKTIMEVERIFY': vm.CLTV}.get(name.strip(), 0)
    for i, (h, n, s, q) in enumerate(t[1]):
        script = prev.get((h, n))
        if script is None or 'CODESEPARATOR' in script or 'CODESEPARATOR' in row[0][0][2]: continue
        try: spk = asm(script); tx.script_ops(spk); tx.script_ops(s)
        except Exception: continue
        ok = vm.verify(s, spk, flags, {'checksig': checker(t, i), 'lock': t[3], 'seq': q})
        if not ok and ('0x' in script and ('30' in script)): continue   # needs FindAndDelete or lax DER: not modelled
        checked += ok
assert checked >= 50, checked
# script rules, hand-made from bitcoind's script_valid/invalid.json
V = lambda a, b, fl=0, c=None: vm.verify(asm(a), asm(b), fl, c)
for a, b in [('1 2', '2 EQUALVERIFY 1 EQUAL'), ('0', 'IF RETURN ENDIF 1'), ('1', 'IF 1 ELSE RETURN ENDIF'), ('0 1', 'NIP'),
             ('0 1', 'TUCK DEPTH 3 NUMEQUALVERIFY 2DROP'), ('2147483647 DUP ADD', '4294967294 EQUAL'),
             ("'abcdefghijklmnopqrstuvwxyz'", 'HASH160 0x14c286a1af0947f58d1ad787385b1c2c4a976f9e71 EQUAL'),
             ('0 0 0', 'CHECKMULTISIG'), ('1', 'IF 1 ELSE 0 ENDIF')]:
    assert V(a, b), (a, b)
for a, b in [('', ''), ('0', ''), ('0x0180', ''), ('1', 'VERIF'), ('0', 'IF VERIF ELSE 1 ENDIF'), ('1', 'ENDIF'), ('1', 'IF'),
             ('2147483648 0', 'ADD DROP 1'), ('1', 'CAT'), ('0', 'IF 2MUL ENDIF 1'), ('1 1', '3 PICK'), ('1', '-1 PICK'), ('1', 'RESERVED')]:
    assert not V(a, b), (a, b)
print('references: ok (%d transactions parsed, %d inputs verified)' % (parsed, checked))

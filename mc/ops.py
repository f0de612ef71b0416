"""
The operations of the library on a collection of colliding objects: they share a
secret, hash, script or index and differ in a network, form, flag or neighbour.
Every operation is (families, name, thunk, cost) and returns a literal.
Objects are built on first use *in the process that runs the operation* and then
kept, so that two operations on the same object really use one object.
"""
import threading
from .common import *
from . import entropy, fast
from .spend import p2pkh, p2sh, multisig, T
from .ref import bip32, vm
from bitforge import signature
from bitforge.script.interpreter import Interpreter
from bitforge.utils import ecdsa as E, ellipticcurve as EC, numbertheory as NT, intbytes, encoding as UE, secp256k1

fast.install()
OPS = []
_local = threading.local()      # every thread has its own objects


def get(key, make):
    built = _local.__dict__.setdefault('built', {})
    if key not in built: built[key] = make()
    return built[key]


def fresh(): _local.__dict__.pop('built', None)


def show(v, depth=5):
    """A literal that tells apart everything a caller could."""
    if v is None or isinstance(v, (bool, int, float, str)): return v
    if isinstance(v, (bytes, bytearray)): return (type(v).__name__, bytes(v))
    if isinstance(v, BaseException): return ('raised', type(v).__name__, str_of(v))
    if isinstance(v, networks.Network): return ('network', v.name)
    if isinstance(v, (list, tuple)) and not hasattr(v, '_fields'): return (type(v).__name__,) + tuple(show(x, depth - 1) for x in v)
    if isinstance(v, dict): return ('dict',) + tuple(sorted((show(k), show(x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)): return ('set',) + tuple(sorted(map(repr, map(show, v))))
    if isinstance(v, Opcode): return ('Opcode', v.number)
    out = [type(v).__name__]
    for m in ('to_bytes', 'to_string', 'to_uri'):
        if hasattr(v, m):
            k, x = call(getattr(v, m))
            out.append(show(x, depth - 1))
    if depth:
        for f in getattr(v, '_fields', ()): out.append((f, show(getattr(v, f), depth - 1)))
    if isinstance(v, (EC.Point,)): out.append((v.x(), v.y()))
    if isinstance(v, Unit): out.append((v.satoshis, v.bits, v.mbtc, v.btc))
    if isinstance(v, URI): out.append((show(v.address), show(v.amount), show(v.extras), getattr(v, 'label', None), getattr(v, 'message', None)))
    return tuple(out)


def op(families, name, f, cost=0):
    OPS.append((frozenset(families.split()), name, f, cost))


def result(i):
    k, v = call(OPS[i][2])
    return show(v)


def with_entropy(stream, f):
    entropy.script(entropy.Counter(stream))
    try:
        return f()
    finally:
        entropy.script(None)


# ---- keys and addresses
D1, D2 = patterned(32, 301), patterned(32, 302)
SIG = {(s, d): B.der(*ec.sign(s, int.from_bytes(d, 'big'), 987654321)) for s in (1, 2) for d in (D1, D2)}
for s in (1, 2):
    for net in NETNAMES:
        for comp in (True, False):
            tag = '%d,%s,%s' % (s, net, comp)
            K = lambda s=s, net=net, comp=comp, tag=tag: get('K' + tag, lambda: PrivateKey(s, NETS[net], comp))
            P = lambda s=s, net=net, comp=comp, tag=tag: get('P' + tag, lambda: PublicKey.from_bytes(pub(s, comp), NETS[net]))
            op('key', 'PrivateKey(%s).to_wif' % tag, lambda K=K: K().to_wif())
            op('key', 'PrivateKey(%s).to_hex, repr' % tag, lambda K=K: (K().to_hex(), K().to_bytes(), repr(K())))
            op('key ec', 'PrivateKey(%s).to_public_key' % tag, lambda K=K: K().to_public_key(), 12)
            op('key ec', 'PrivateKey(%s).to_address' % tag, lambda K=K: K().to_address(), 12)
            op('key addr', 'PublicKey(%s).to_bytes' % tag, lambda P=P: P().to_bytes())
            op('key addr', 'PublicKey(%s).to_address' % tag, lambda P=P: P().to_address())
            op('key', 'from_wif(%s)' % tag, lambda w=B.b58cenc(bytes([WIF[net]]) + s.to_bytes(32, 'big') + (b'\1' if comp else b'')): PrivateKey.from_wif(w))
            op('key', 'from_hex(%s)' % tag, lambda s=s, net=net, comp=comp: PrivateKey.from_hex('%064x' % s, net, comp))
            op('key', 'PublicKey.from_hex(%s)' % tag, lambda s=s, net=net, comp=comp: PublicKey.from_hex(pub(s, comp).hex(), net))
    for d in (D1, D2):
        op('key ec sign', 'verify(%d, %s, own)' % (s, d[:2].hex()), lambda s=s, d=d: get('K%d' % s, lambda: PrivateKey(s)).verify(SIG[s, d], d), 110)
        op('key ec sign', 'sign(%d, %s)' % (s, d[:2].hex()), lambda s=s, d=d: with_entropy(patterned(40, 9), lambda: get('K%d' % s, lambda: PrivateKey(s)).sign(d)), 45)
    op('key ec sign', 'verify(%d, other digest)' % s, lambda s=s: get('K%d' % s, lambda: PrivateKey(s)).verify(SIG[s, D1], D2), 110)
    op('key ec sign', 'verify(%d, other key)' % s, lambda s=s: get('K%d' % s, lambda: PrivateKey(s)).verify(SIG[3 - s, D1], D1), 110)
op('key', 'PrivateKey() a', lambda: with_entropy(patterned(40, 11), PrivateKey))
op('key', 'PrivateKey() b', lambda: with_entropy(patterned(40, 12), lambda: PrivateKey(None, 'testnet', False)))
op('key', 'PrivateKey(0)', lambda: PrivateKey(0))
op('key', 'PrivateKey(N)', lambda: PrivateKey(N))
op('key', 'PrivateKey(True)', lambda: PrivateKey(1, 'nowhere'))
op('key', 'from_wif(bad)', lambda: PrivateKey.from_wif(B.b58cenc(b'\x81' + b'\1' * 32)))
op('key', 'from_wif(bad marker)', lambda: PrivateKey.from_wif(B.b58cenc(b'\x80' + b'\1' * 32 + b'\2')))
H = patterned(20, 303)
for net in NETNAMES:
    for kind, ty in (('pubkey', Address.Type.PublicKey), ('script', Address.Type.Script)):
        raw = bytes([VERSION[net, kind]]) + H
        tag = '%s,%s' % (net, kind)
        A = lambda net=net, ty=ty, tag=tag: get('A' + tag, lambda: Address(H, NETS[net], ty))
        op('addr', 'Address(%s).to_string' % tag, lambda A=A: (A().to_string(), repr(A())))
        op('addr', 'Address(%s).to_bytes' % tag, lambda A=A: (A().to_bytes(), A().to_hex()))
        op('addr', 'Address.from_string(%s)' % tag, lambda t=B.b58cenc(raw): Address.from_string(t))
        op('addr', 'Address.from_hex(%s)' % tag, lambda t=raw.hex(): Address.from_hex(t))
        op('addr out', 'AddressOutput(%s)' % tag, lambda A=A: AddressOutput.create(5, A()))
    op('addr script', 'Address.from_script(%s)' % net, lambda net=net: Address.from_script(get('S51', lambda: Script.from_bytes(b'\x51')), NETS[net]))
op('addr', 'Address.from_string(bad)', lambda: Address.from_string('1' * 30))
op('addr', 'Address(short)', lambda: Address(b'\1' * 19))
op('addr', 'Address(type)', lambda: Address(H, 'testnet', 'other'))
for v, attr in (('livenet', 'name'), ('testnet', 'name'), (0, 'pubkeyhash'), (111, 'pubkeyhash'), (5, 'scripthash'), (5, 'pubkeyhash'), (196, 'scripthash'), (128, 'wif_prefix'), (239, 'wif_prefix'), (0x0488b21e, 'hd_public_key'), (0x0488b21e, 'hd_private_key'), ('livenet', 'port'), (8333, 'port'), (1, 'nothing')):
    op('key addr hd', 'networks.find(%r, %r)' % (v, attr), lambda v=v, attr=attr: networks.find(v, attr))
op('key addr hd', 'networks.find(x, raises = False)', lambda: networks.find('x', raises=False))
op('key addr hd', 'networks.find(network)', lambda: networks.find(networks.testnet))

# ---- extended keys
CH = patterned(32, 304)
for j, (s, ch, d, i, p, net) in enumerate([(5, CH, 0, 0, 0, 'livenet'), (5, CH[::-1], 0, 0, 0, 'livenet'), (5, CH, 1, 0, 0, 'livenet'), (5, CH, 0, 1, 0, 'livenet'), (5, CH, 0, 0, 1, 'livenet'), (5, CH, 0, 0, 0, 'testnet'), (6, CH, 0, 0, 0, 'livenet')]):
    args = (ch, d, i, p, NETS[net])
    node = bip32.Node(s, ec.mul_g(s), ch, d, i, p.to_bytes(4, 'big'), net)
    X = lambda j=j, s=s, args=args: get('X%d' % j, lambda: HDPrivateKey(PrivateKey(s, args[-1]), *args))
    Y = lambda j=j, s=s, args=args: get('Y%d' % j, lambda: HDPublicKey(PublicKey.from_bytes(pub(s), args[-1]), *args))
    op('hd', 'HDPrivateKey %d to_string' % j, lambda X=X: X().to_string(), 12)
    op('hd', 'HDPublicKey %d to_string' % j, lambda Y=Y: Y().to_string())
    op('hd', 'HDPrivateKey.from_string %d' % j, lambda t=node.text(): HDPrivateKey.from_string(t), 12)
    op('hd', 'HDPublicKey.from_string %d' % j, lambda t=node.neuter().text(): HDPublicKey.from_string(t), 1)
    op('hd', 'HDPrivateKey %d to_hd_public_key' % j, lambda X=X: X().to_hd_public_key(), 24)
    if j != 3:
        op('hd', 'HDPrivateKey %d derive(0)' % j, lambda X=X: X().derive(0), 36)
        op('hd', 'HDPublicKey %d derive(0)' % j, lambda Y=Y: Y().derive(0), 14)
    if j in (0, 1, 5):
        op('hd', 'HDPrivateKey %d derive(0, hardened)' % j, lambda X=X: X().derive(0, True), 36)
        op('hd', 'HDPublicKey %d derive(1)' % j, lambda Y=Y: Y().derive(1), 14)
    if j == 0:
        op('hd', 'HDPrivateKey %d derive(2**31)' % j, lambda X=X: X().derive(2 ** 31), 36)
        op('hd', 'HDPrivateKey %d derive(1)' % j, lambda X=X: X().derive(1), 36)
        op('hd', 'HDPublicKey %d derive(0, hardened)' % j, lambda Y=Y: Y().derive(0, True))
        op('hd', 'HDPublicKey %d derive(2**31)' % j, lambda Y=Y: Y().derive(2 ** 31))
op('hd', 'from_seed a', lambda: HDPrivateKey.from_seed(patterned(32, 1)), 12)
op('hd', 'from_seed b', lambda: HDPrivateKey.from_seed(patterned(31, 1) + b'\0'), 12)
op('hd', 'from_seed()', lambda: with_entropy(patterned(40, 13), HDPrivateKey.from_seed), 12)
op('hd', 'from_seed(short)', lambda: HDPrivateKey.from_seed(b'\1' * 31))

# ---- scripts
K1, K2, K3 = pub(1), pub(2), pub(3)
SIG1, SIG2 = SIG[1, D1] + b'\1', SIG[2, D2] + b'\1'
RAWS = {'empty': b'', '1': b'\x51', '2': b'\x52', 'pkh': p2pkh(H), 'pkh0': p2pkh(b'\0' * 20), 'sh': p2sh(b'\x51'), 'sh H': b'\xa9\x14' + H + b'\x87', 'ret': b'\x6a\x02ab', 'ret2': b'\x6a\x02ac', 'm1': multisig(1, [K1, K2]), 'm2': multisig(2, [K1, K2]), 'm1r': multisig(1, [K2, K1]),
        'in': T.push(SIG1) + T.push(K1), 'in2': T.push(SIG2) + T.push(K1), 'shin': b'\0' + T.push(SIG1) + T.push(b'\x51'), 'push': b'\x01a', 'push1': b'\x4c\x01a', 'push2': b'\x4d\1\0a', 'unknown': b'\xff', 'cut': b'\x05a', 'trailing': p2pkh(H) + b'\x61'}
GETTERS = ('get_public_key', 'get_signature', 'get_address_hash', 'get_script', 'get_signatures', 'get_script_hash', 'get_data', 'get_min_signatures', 'get_public_keys', 'is_push_only', 'is_script_hash_out')
for name, raw in RAWS.items():
    S = lambda name=name, raw=raw: get('S' + name, lambda: Script.from_bytes(raw))
    op('script', 'Script %s' % name, S)
    op('script', 'Script %s fresh, hash' % name, lambda raw=raw: (Script.from_bytes(raw).to_bytes(), Script.from_bytes(raw).to_hash()))
    if name in ('cut',): continue
    op('script', 'Script %s parts' % name, lambda S=S: [(g, call(getattr(S(), g))[1]) for g in GETTERS if hasattr(S(), g)])
    if name not in ('unknown',): op('script', 'Script.from_string %s' % name, lambda S=S: Script.from_string(S().to_string()))
op('script', 'Script.from_string(bad)', lambda: Script.from_string('OP_1 OP_WHAT'))
op('script', 'Script.compile a', lambda: Script.compile([Opcode(0x51), b'a' * 75]))
op('script', 'Script.compile b', lambda: Script.compile([Opcode(0x51), b'a' * 76]))
op('script', 'Script()', lambda: Script())
op('script', 'Instruction a', lambda: Instruction(Opcode(1), b'a'))
op('script', 'Instruction bad', lambda: Instruction(Opcode(1), b'ab'))
op('script', 'push_for', lambda: [Instruction.push_for(b'x' * n) for n in (1, 75, 76, 255, 256)])
op('script', 'Opcode names', lambda: [(Opcode(n).number, call(lambda: Opcode(n).name)[1]) for n in (0, 1, 75, 76, 0x51, 0x60, 0xac, 0xb1, 0xff)])
op('script', 'Opcode numbers', lambda: [call(Opcode.for_name, n)[1] for n in ('OP_0', 'OP_1', 'OP_16', 'OP_TRUE', 'OP_NOP2', 'OP_X')] if hasattr(Opcode, 'for_name') else None)
op('script', 'RedeemMultisig', lambda: [script_module.RedeemMultisig.create([PublicKey.from_bytes(k) for k in ks], m) for ks, m in (((K1, K2), 1), ((K1, K2), 2), ((K2, K1), 2))], 1)

# ---- inputs, outputs, transactions
T1, T2 = patterned(32, 1).hex(), patterned(32, 2).hex()
PKS = lambda: [PublicKey.from_bytes(k) for k in (K1, K2)]
INS = {'a': lambda: Input(T1, 0, Script.from_bytes(b'')), 'b': lambda: Input(T1, 1, Script.from_bytes(b'')), 'c': lambda: Input(T2, 0, Script.from_bytes(b'')), 'd': lambda: Input(T1, 0, Script.from_bytes(b''), 5), 'e': lambda: Input(T1, 0, Script.from_bytes(b'\x51')),
       'addr': lambda: AddressInput.create(T1, 0, Address(B.hash160(K1))), 'addr test': lambda: AddressInput.create(T1, 0, Address(B.hash160(K1), 'testnet')), 'addr2': lambda: AddressInput.create(T1, 1, Address(B.hash160(K2))), 'multi': lambda: MultisigInput.create(T1, 0, PKS(), 2), 'multi1': lambda: MultisigInput.create(T1, 0, PKS(), 1),
       'script': lambda: ScriptInput.create(T1, 0, Script.from_bytes(b'\x51'))}
for n, f in INS.items():
    op('tx', 'Input %s' % n, lambda n=n, f=f: get('I' + n, f))
    op('tx', 'Input %s bytes' % n, lambda n=n, f=f: Input.from_bytes(get('I' + n, f).to_bytes()))
OUTS = {'a': lambda: Output(5, Script.from_bytes(b'\x51')), 'b': lambda: Output(6, Script.from_bytes(b'\x51')), 'c': lambda: Output(5, Script.from_bytes(b'\x52')), 'addr': lambda: AddressOutput.create(5, Address(H)), 'script': lambda: ScriptOutput.create(5, Script.from_bytes(b'\x51')), 'data': lambda: DataOutput.create(b'ab'),
        'data2': lambda: DataOutput.create(b'ac'), 'long': lambda: DataOutput.create(b'a' * 81), 'multi': lambda: MultisigOutput.create(5, PKS(), 2), 'multi1': lambda: MultisigOutput.create(5, PKS(), 1), 'bad': lambda: Output(-1, Script.from_bytes(b''))}
for n, f in OUTS.items():
    op('tx out', 'Output %s' % n, lambda n=n, f=f: get('O' + n, f))
    if n not in ('long', 'bad'): op('tx out', 'Output %s bytes' % n, lambda n=n, f=f: Output.from_hex(get('O' + n, f).to_hex()))
I = lambda n: get('I' + n, INS[n])
O = lambda n: get('O' + n, OUTS[n])
TXS = {'1': ('a', 'a', 0, 1), '2': ('b', 'a', 0, 1), '3': ('a', 'b', 0, 1), '4': ('a', 'a', 1, 1), '5': ('a', 'a', 0, 2), '6': ('ab', 'a', 0, 1), '7': ('ba', 'a', 0, 1), '8': ('a', 'ab', 0, 1), '9': ('e', 'a', 0, 1), '0': ('d', 'a', 0, 1)}
TX = {n: (lambda a=a: Transaction([I(x) for x in a[0]], [O(x) for x in a[1]], a[2], a[3])) for n, a in TXS.items()}
for n, f in TX.items():
    op('tx', 'Transaction %s' % n, lambda n=n, f=f: get('T' + n, f))
    op('tx', 'Transaction %s id' % n, lambda n=n, f=f: (get('T' + n, f).get_id(), get('T' + n, f).get_id_bytes()))
    op('tx', 'Transaction %s from_hex' % n, lambda n=n, f=f: Transaction.from_hex(get('T' + n, f).to_hex()))
SIGNTX = {'addr': ('addr',), 'both': ('addr', 'addr2'), 'multi': ('multi',)}
for n, ins in SIGNTX.items():
    ST = lambda n=n, ins=ins: get('ST' + n, lambda: Transaction([I(x) for x in ins], [O('a')]))
    op('tx', 'signing Transaction %s' % n, ST)
    op('tx', 'can_sign %s' % n, lambda ST=ST: [call(ST().inputs[0].can_sign, [PrivateKey(k) for k in ks])[1] for ks in ((1,), (2,), (1, 2), (2, 1), (1, 1), ())], 60)
    op('tx sign', 'sign %s 0' % n, lambda ST=ST, n=n: with_entropy(patterned(99, 5), lambda: ST().sign([PrivateKey(1)] if n != 'multi' else [PrivateKey(2), PrivateKey(1)], 0)), 60)
    op('tx sign', 'sign %s 0 single' % n, lambda ST=ST, n=n: with_entropy(patterned(99, 5), lambda: ST().sign([PrivateKey(1)] if n != 'multi' else [PrivateKey(2), PrivateKey(1)], 0, 3)), 60)
    op('tx', 'sign %s wrong' % n, lambda ST=ST: with_entropy(patterned(99, 5), lambda: ST().sign([PrivateKey(3)], 0)), 30)
op('tx sign', 'sign both 1', lambda: with_entropy(patterned(99, 5), lambda: get('STboth', lambda: Transaction([I('addr'), I('addr2')], [O('a')])).sign([PrivateKey(2)], 1)), 60)
op('tx', 'Transaction.from_bytes(cut)', lambda: Transaction.from_bytes(TX['1']().to_bytes()[:-1]))
op('tx', 'Transaction.from_bytes(long)', lambda: Transaction.from_bytes(TX['1']().to_bytes() + b'\0'))

# ---- interpreter
CLTV = T.push(b'\x64') + b'\xb1\x51'
def lock_tx(lock, seq): return get('L%d,%d' % (lock, seq), lambda: Transaction([Input(T1, 0, Script.from_bytes(b''), seq), Input(T1, 1, Script.from_bytes(b''), 0xffffffff)], [Output(1, Script.from_bytes(b'\x51'))], lock))
VERIFIES = {}
def vop(name, sig, lock, flags=0, tx=None, nin=0):
    def go(interp):
        return interp.verify(Script.from_bytes(sig), Script.from_bytes(lock), tx() if tx else None, nin, flags)
    VERIFIES[name] = go
    op('vm', 'verify %s' % name, lambda: go(Interpreter()))
    op('vm', 'reused verify %s' % name, lambda: go(get('interp', Interpreter)))
vop('true', b'\x51', b'')
vop('false', b'\0', b'')
vop('empty', b'', b'')
vop('left over', b'\x51\x51\x51', b'\0')
vop('alt', b'\x51\x6b', b'\x51\x6c')
vop('alt 2', b'\x51\x51\x6b', b'\x6c')
vop('alt left', b'\x51\x6b\x51', b'')
vop('alt left 2', b'\x51', b'\x51\x6b')
vop('alt take', b'\x51', b'\x6c')
vop('alt trip', b'', b'\x52\x6b\x53\x6b\x51\x6c\x53\x88\x6c\x52\x88')
vop('alt trip 2', b'', b'\x57\x6b\x58\x6b\x51\x6c\x58\x88\x6c\x57\x88')
vop('nested if', b'\x51', b'\x63\0\x63\0\x67\x51\x68\x67\0\x68')
vop('nested if 2', b'\0', b'\x63\0\x63\0\x67\0\x68\x67\x51\x63\x51\x68\x68')
vop('open if', b'\x51\x51\x63', b'')
vop('open if 2', b'\x51', b'\x51\x63')
vop('if', b'\x51', b'\x63\x51\x67\0\x68')
vop('else', b'\0', b'\x63\0\x67\x51\x68')
vop('return', b'\x51', b'\x6a')
vop('bad', b'\x51', b'\x75\x75')
vop('disabled', b'\x51', b'\x7e')
vop('p2sh', T.push(b'\x51'), p2sh(b'\x51'), vm.P2SH)
vop('p2sh off', T.push(b'\0\0'), p2sh(b'\0\0'))
vop('p2sh false', T.push(b'\0\0'), p2sh(b'\0\0'), vm.P2SH)
vop('p2sh args', b'\x51' + T.push(b'\x91'), p2sh(b'\x91'), vm.P2SH)
vop('push only', b'\x51\x61', b'', vm.SIGPUSHONLY)
vop('push only off', b'\x51\x61', b'')
vop('minimal', b'\x01\x05', b'\x55\x87', vm.MINIMALDATA)
vop('minimal off', b'\x01\x05', b'\x55\x87')
vop('minimal number', b'\x02\x05\x00', b'\x8b', vm.MINIMALDATA)
vop('nops', b'\x51', b'\xb0', vm.DISCOURAGE)
vop('nops off', b'\x51', b'\xb0')
vop('many ops', b'\x51', b'\x61' * 201)
vop('too many ops', b'\x51', b'\x61' * 202)
vop('ops in both', b'\x51' + b'\x61' * 150, b'\x61' * 150)
vop('cltv', b'', CLTV, vm.CLTV, lambda: lock_tx(100, 0))
vop('cltv early', b'', CLTV, vm.CLTV, lambda: lock_tx(99, 0))
vop('cltv final', b'', CLTV, vm.CLTV, lambda: lock_tx(100, 0xffffffff))
vop('cltv input 1', b'', CLTV, vm.CLTV, lambda: lock_tx(100, 0), 1)
vop('cltv off', b'', CLTV, 0, lambda: lock_tx(99, 0))
vop('equal', b'\x51', b'\x51\x87')
vop('equal true twice', b'\x51\x51\x87', b'\x51\x51\x87\x87')
vop('verify', b'\x51', b'\x51\x88\x51')
vop('not', b'\0', b'\x91')
vop('not 2', b'\x51', b'\x91')
vop('cat of results', b'\x51\x91', b'\0\x87')
vop('arith', b'\x52\x53', b'\x93\x55\x87')
vop('numeq', b'\x52', b'\x52\x9c')
vop('hash', b'\x01a', b'\xa9' + T.push(B.hash160(b'a')) + b'\x87')
vop('hash wrong', b'\x01b', b'\xa9' + T.push(B.hash160(b'a')) + b'\x87')
vop('checksig', T.push(SIG1), T.push(K1) + b'\xac')
vop('checksig empty', b'\0', T.push(K1) + b'\xac\x91')
vop('multisig', b'\0\0', b'\0\0\xae')
vop('size', b'\x01a', b'\x82\x51\x88\x01a\x87')
vop('dup', b'\x52', b'\x76\x93\x54\x87')
vop('depth', b'\x51\x51', b'\x74\x52\x87')
vop('within', b'\x52', b'\x51\x53\xa5')
vop('negate', b'\x51', b'\x8f\x4f\x87')
vop('bool and', b'\x51\0', b'\x9a\x91')

# ---- every operation of the script language, checked by the script itself, with two sets of operands
def _n(v):
    if v == 0: return b'\0'
    b = abs(v).to_bytes((abs(v).bit_length() + 7) // 8, 'little')
    if b[-1] & 128: b += b'\x80' if v < 0 else b'\0'
    elif v < 0: b = b[:-1] + bytes([b[-1] | 128])
    return T.push(b)
def _is(v): return v + b'\x88'                      # the top of the stack is this push
_BIN = {0x93: lambda a, b: a + b, 0x94: lambda a, b: a - b, 0x9a: lambda a, b: int(bool(a and b)), 0x9b: lambda a, b: int(bool(a or b)), 0x9c: lambda a, b: int(a == b), 0x9e: lambda a, b: int(a != b), 0x9f: lambda a, b: int(a < b),
        0xa0: lambda a, b: int(a > b), 0xa1: lambda a, b: int(a <= b), 0xa2: lambda a, b: int(a >= b), 0xa3: min, 0xa4: max}
_UN = {0x8b: lambda a: a + 1, 0x8c: lambda a: a - 1, 0x8f: lambda a: -a, 0x90: abs, 0x91: lambda a: int(a == 0), 0x92: lambda a: int(a != 0)}
_HASH = {0xa6: lambda d: hashlib.new('ripemd160', d).digest(), 0xa7: lambda d: hashlib.sha1(d).digest(), 0xa8: lambda d: hashlib.sha256(d).digest(), 0xa9: B.hash160, 0xaa: B.dsha}
_STACK = [(0x6d, 2, []), (0x6e, 2, [0, 1, 0, 1]), (0x6f, 3, [0, 1, 2, 0, 1, 2]), (0x70, 4, [0, 1, 2, 3, 0, 1]), (0x71, 6, [2, 3, 4, 5, 0, 1]), (0x72, 4, [2, 3, 0, 1]), (0x73, 1, [0, 0]), (0x75, 1, []), (0x76, 1, [0, 0]), (0x77, 2, [1]), (0x78, 2, [0, 1, 0]),
          (0x7b, 3, [1, 2, 0]), (0x7c, 2, [1, 0]), (0x7d, 2, [1, 0, 1])]
import hashlib
for _name, _a, _b, _data in (('x', 5, 3, b'abc'), ('y', -300, 70000, b'abd' * 30)):
    _s = {'binary': b''.join(_n(_a) + _n(_b) + bytes([o]) + _is(_n(f(_a, _b))) for o, f in _BIN.items()) + _n(_a) + _n(_a) + b'\x9d' + _n(_a) + _n(min(_a, _b)) + _n(max(_a, _b) + 1) + b'\xa5\x69',
          'unary': b''.join(_n(v) + bytes([o]) + _is(_n(f(v))) for o, f in _UN.items() for v in (_a, 0)),
          'hashes': b''.join(T.push(_data) + bytes([o]) + _is(T.push(f(_data))) for o, f in _HASH.items()) + T.push(_data) + b'\x82' + _is(_n(len(_data))) + _is(T.push(_data)),
          'stack': b''.join(b''.join(_n(20 + (i * _b) % 97) for i in range(k)) + bytes([o]) + b''.join(_is(_n(20 + (i * _b) % 97)) for i in reversed(left)) for o, k, left in _STACK) + b'\x74' + _is(b'\0'),
          'pick': _n(21) + _n(22) + _n(_b % 90 + 20) + b'\x52\x79' + _is(_n(21)) + b'\x51\x7a' + _is(_n(22)) + _is(_n(_b % 90 + 20)) + _is(_n(21)),
          'branches': b''.join(v + b'\x63' + _n(30 + _b % 50) + b'\x67' + _n(40 + _b % 50) + b'\x68' + _is(_n((30 if v == b'\x51' else 40) + _b % 50)) for v in (b'\x51', b'\0')) + b'\0\x64\x61\x68\x51\x64\x6a\x68',
          'nops': bytes([0x61] + [0xb0, 0xb3, 0xb9] + [0xab])}
    for _k, _v in _s.items():
        if _k == 'pick': _v = _v[:-len(_is(_n(21)))] + b'\x75'
        op('vm2', 'ops %s %s' % (_k, _name), lambda s=_v + b'\x51': Interpreter().verify(Script.from_bytes(b''), Script.from_bytes(s), None, 0, 0))
        op('vm2', 'ops %s %s, reused' % (_k, _name), lambda s=_v + b'\x51': get('interp', Interpreter).verify(Script.from_bytes(b''), Script.from_bytes(s), None, 0, 0))
        op('vm2', 'ops %s %s, cut' % (_k, _name), lambda s=_v: [Interpreter().verify(Script.from_bytes(b''), Script.from_bytes(x), None, 0, 0) for x in (s, s[-1:], b'\x51' + s[-1:])])
op('vm2', 'operations alone', lambda: [Interpreter().verify(Script.from_bytes(b''), Script.from_bytes(bytes([o])), None, 0, 0) for o in [0] + list(range(0x4f, 256))], 10)
op('vm2', 'operations after 1', lambda: [Interpreter().verify(Script.from_bytes(b'\x51'), Script.from_bytes(bytes([o])), None, 0, 0) for o in [0] + list(range(0x4f, 256))], 10)
op('vm2', 'operations after 2 1 3 2 4 5', lambda: [Interpreter().verify(Script.from_bytes(b'\x52\x51\x53\x52\x54\x55'), Script.from_bytes(bytes([o])), None, 0, 0) for o in [0] + list(range(0x4f, 256))], 10)
op('vm2', 'limits', lambda: [Interpreter().verify(Script.from_bytes(b'\x51'), Script.from_bytes(x), None, 0, 0) for x in (b'\x61' * 201, b'\x61' * 202, T.push(b'a' * 520), T.push(b'a' * 521), b'\x51' * 999, b'\x51' * 1000, b'\0' * 9999 + b'\x51', b'\xae', b'\x50')], 10)

# ---- encodings
for n, f in {
    'int 5': lambda: encoding.encode_int(5), 'int 5/4': lambda: encoding.encode_int(5, length=4), 'int 5/4 le': lambda: encoding.encode_int(5, big_endian=False, length=4), 'int 0': lambda: encoding.encode_int(0), 'int 0/4': lambda: encoding.encode_int(0, length=4),
    'int True': lambda: encoding.encode_int(1), 'int 256': lambda: encoding.encode_int(256), 'int 256 le': lambda: encoding.encode_int(256, False), 'int 256/1': lambda: encoding.encode_int(256, length=1), 'int -1': lambda: encoding.encode_int(-1),
    'decode': lambda: encoding.decode_int(b'\1\2'), 'decode le': lambda: encoding.decode_int(b'\1\2', False), 'decode array': lambda: encoding.decode_int(bytearray(b'\1\2')), 'varint': lambda: [encoding.encode_varint(v) for v in (0, 252, 253, 65535, 65536, 2 ** 32)],
    'num': lambda: [encoding.encode_script_number(v) for v in (0, 1, -1, 127, 128, -128, 255, 256)], 'num decode': lambda: [encoding.decode_script_number(v) for v in (b'', b'\x80', b'\1\x80', b'\xff\0')], 'num minimal': lambda: encoding.decode_script_number(b'\1\0', True), 'num not minimal': lambda: encoding.decode_script_number(b'\1\0'),
    'num long': lambda: encoding.decode_script_number(b'\1\2\3\4\5'), 'num 5': lambda: encoding.decode_script_number(b'\1\2\3\4\5', size=5), 'b58': lambda: encoding.encode_base58h(b'\0abc'), 'b58 2': lambda: encoding.encode_base58h(b'\0\0abc'), 'b58 decode': lambda: encoding.decode_base58h(B.b58cenc(b'\0abc')),
    'b58 bad': lambda: encoding.decode_base58h('1111'), 'hex': lambda: encoding.decode_hex('ab'), 'hex bad': lambda: encoding.decode_hex('abc'), 'hashes': lambda: [g(b'abc') for g in (encoding.sha256, encoding.sha1, encoding.ripemd160, encoding.hash160)], 'hashes 2': lambda: [g(b'abd') for g in (encoding.sha256, encoding.sha1, encoding.ripemd160, encoding.hash160)],
    'intbytes': lambda: (intbytes.to_bytes(5, length=4), intbytes.from_bytes(b'\1\2'), intbytes.int_to_bytes(256)), 'intbytes 2': lambda: (intbytes.to_bytes(5, length=2), intbytes.from_bytes(b'\2\1')),
    'Buffer read': lambda: (lambda b: (b.read(1), b.read_varint(), bytes(b)))(Buffer(b'\1\xfd\xff\0z')), 'Buffer short': lambda: Buffer(b'\1').read(2), 'Buffer write': lambda: (lambda b: (b.write(b'ab'), b.read(1), bytes(b)))(Buffer()), 'Buffer()': lambda: Buffer(),
    'DER a': lambda: signature.validate_signature(SIG1), 'DER b': lambda: signature.validate_signature(SIG2), 'DER bad': lambda: signature.validate_signature(SIG1[:-1]), 'DER long': lambda: signature.validate_signature(SIG1 + b'\0'),
    'Unit a': lambda: Unit(btc=1.5), 'Unit b': lambda: Unit(satoshis=1), 'Unit c': lambda: Unit(bits=1), 'Unit d': lambda: Unit(mbtc=1), 'Unit none': lambda: Unit(), 'fiat': lambda: (Unit.from_fiat(10, 300), Unit.from_fiat(10, 301), Unit(btc=2).at_rate(7)),
}.items(): op('enc', n, f)
AD, AD2 = B.b58cenc(b'\0' + H), B.b58cenc(b'\x6f' + H)
for n, t in {'plain': 'bitcoin:' + AD, 'amount': 'bitcoin:%s?amount=1.5' % AD, 'label': 'bitcoin:%s?label=x&foo=bar' % AD, 'label 2': 'bitcoin:%s?label=y&bar=foo' % AD2, 'message': 'bitcoin:%s?message=hi&amount=0.1' % AD2, 'bad': 'bitcoin:%sx' % AD, 'scheme': 'litecoin:' + AD, 'negative': 'bitcoin:%s?amount=-1' % AD, 'zero': 'bitcoin:%s?amount=0' % AD}.items():
    op('enc uri', 'URI ' + n, lambda t=t: URI(t))
    op('enc uri', 'URI.is_valid ' + n, lambda t=t: URI.is_valid(t))
op('enc uri', 'URI dict', lambda: (lambda d: (URI(d), d))({'address': AD, 'amount': 7, 'label': 'z', 'q': 'w'}))
op('enc uri', 'URI dict 2', lambda: (lambda d: (URI(d), d))({'address': AD2}))

URIS = {'all': 'bitcoin:%s?amount=2.5&label=a%%20b&message=m&r=http%%3A%%2F%%2Fx&foo=1' % AD, 'none': 'bitcoin:' + AD2, 'tiny': 'bitcoin:%s?amount=0.00000001&q=%%C3%%A9' % AD2}
for n, t in URIS.items():
    op('enc uri', 'URI %s to_uri' % n, lambda t=t: (URI(t).to_uri(), repr(URI(t)), sorted(URI(t).extras.items())))
    op('enc uri', 'URI %s kept' % n, lambda n=n, t=t: get('U' + n, lambda: URI(t)).to_uri())
op('enc uri', 'URI wrong type', lambda: URI(5))
op('enc uri', 'URI infinite', lambda: URI('bitcoin:%s?amount=inf' % AD))
UENC = UE
for n, f in {
    'wif helpers': lambda: [(UENC.secret_exponent_to_wif(s, c, p), call(UENC.wif_to_tuple_of_secret_exponent_compressed, UENC.secret_exponent_to_wif(s, c, p))[1]) for s in (1, 2) for c in (True, False) for p in (b'\x80', b'\xef')],
    'is_valid_wif': lambda: [UENC.is_valid_wif(B.b58cenc(p + b'\1' * 32), a) for p in (b'\x80', b'\xef') for a in ([b'\x80'], [b'\xef'])], 'wif bad': lambda: UENC.wif_to_secret_exponent('5xyz'),
    'wif prefix': lambda: [call(UENC.wif_to_secret_exponent, B.b58cenc(b'\xef' + b'\1' * 32))[1], UENC.wif_to_tuple_of_prefix_secret_exponent_compressed(B.b58cenc(b'\xef' + b'\2' * 32))],
    'address helpers': lambda: [(UENC.hash160_sec_to_bitcoin_address(H, p), call(UENC.bitcoin_address_to_hash160_sec, B.b58cenc(p + H), b'\0')[1], call(UENC.bitcoin_address_to_hash160_sec, B.b58cenc(p + H), b'\x6f')[1]) for p in (b'\0', b'\x6f', b'\5')],
    'is_valid_bitcoin_address': lambda: [UENC.is_valid_bitcoin_address(B.b58cenc(p + H), a) for p in (b'\0', b'\x6f') for a in (b'\0', b'\x6f', b'\0\x6f')], 'address of a pair': lambda: [UENC.public_pair_to_bitcoin_address(ec.mul_g(k), c, p) for k in (1, 2) for c in (True, False) for p in (b'\0', b'\x6f')],
    'sec helpers': lambda: [(UENC.public_pair_to_sec(ec.mul_g(1), c), UENC.public_pair_to_hash160_sec(ec.mul_g(1), c), UENC.is_sec_compressed(pub(1, c))) for c in (True, False)], 'to_bytes_32': lambda: [UENC.to_bytes_32(5), UENC.from_bytes_32(b'\0' * 31 + b'\6')], 'to_bytes_32 bad': lambda: UENC.to_bytes_32(2 ** 256),
    'varints read': lambda: [call(Buffer(b).read_varint)[1] for b in (b'\5', b'\xfd\xfd\0', b'\xfe\0\0\1\0', b'\xff' + b'\0' * 4 + b'\1\0\0\0', b'\xfd\1\0', b'\xfd\1', b'')],
    'varint big': lambda: (Buffer(b'\xfe\1\0\1\0').read_varint(), Buffer(b'\xff\1\0\0\0\1\0\0\0').read_varint()), 'Buffer finish': lambda: [call(Buffer(b).finish)[1] for b in (b'', b'a')],
    'intbytes 3': lambda: (intbytes.int_from_bytes(b'\1\2'), intbytes.to_bytes(5, length=4, byteorder='little'), intbytes.from_bytes(b'\xff', signed=True), call(intbytes.to_bytes, 256, length=1)[1]),
    'private bad': lambda: [call(f, x)[1] for f, x in ((PrivateKey.from_hex, '01'), (PrivateKey.from_hex, 'zz'), (PrivateKey.from_bytes, b'1'), (PrivateKey.from_wif, B.b58cenc(b'\x80' + b'\1' * 32 + b'\2')), (PrivateKey.from_wif, B.b58cenc(b'\x80')), (PrivateKey.from_wif, B.b58cenc(b'\x81' + b'\1' * 32)))],
    'public bad': lambda: [call(f, x)[1] for f, x in ((PublicKey.from_hex, '01'), (PublicKey.from_hex, 'zz'), (PublicKey.from_bytes, b'\2' + b'\xff' * 32), (PublicKey, (1, 2)))],
    'address bad': lambda: [call(f, x)[1] for f, x in ((Address.from_hex, 'zz'), (Address.from_bytes, b'\7' + H), (Address.from_bytes, b''), (Address, b'1'))] + [call(Address, H, 'livenet', 'x')[1], call(Address, H, 'nonet')[1]],
    'errors': lambda: [str(call(f, x)[1]) for f, x in ((PrivateKey.from_wif, 'abc'), (PublicKey.from_hex, 'abc'), (Address.from_string, 'abc'), (Script.from_string, 'abc'), (Script.from_string, '2 0x00'), (Transaction.from_hex, '00'), (Opcode, 300))],
    'transaction bad': lambda: [call(Transaction, a, b)[1] for a, b in (([], [1]), ([1], []))] + [call(Transaction.from_bytes, b'')[1]], 'instruction bad': lambda: [call(Instruction, *a)[1] for a in ((Opcode(1), b''), (Opcode(0x51), b'a'), (5,), (Opcode(76), b'a' * 256))],
    'Input.create': lambda: [type(Input.create('00' * 32, 0, Script.from_bytes(x))).__name__ for x in (b'\x51', T.push(b'a' * 71) + T.push(pub(1)), b'\0' + T.push(b'a') + T.push(b'\x51'))], 'Output.create': lambda: [type(Output.create(1, Script.from_bytes(x))).__name__ for x in (b'\x51', p2pkh(H), p2sh(b'\x51'), b'\x6a\1a')],
    'minimal pushes': lambda: [Instruction(Opcode(o), d).is_minimal_push() for o, d in ((1, b'\1'), (1, b'\x81'), (1, b'a'), (76, b'a' * 75), (76, b'a' * 76), (77, b'a' * 255), (77, b'a' * 256), (78, b'a' * 300))], 'opcodes for numbers': lambda: [Opcode.for_number(i) for i in range(17)] + [call(Opcode.for_number, 17)[1]],
    'pushes for': lambda: [Opcode.push_for(i) for i in (1, 75, 76, 255, 256, 65535, 65536)] + [call(Opcode.const_push_for, i)[1] for i in (0, 1, 75, 76)] + [Opcode.var_push_for(i) for i in (1, 256, 65536)], 'script kinds': lambda: [(s.is_push_only(), s.is_script_hash_out(), type(s).__name__, repr(s)) for s in map(Script.from_bytes, (b'\x51', b'\x61', p2sh(b'\x51'), p2pkh(H)))],
    'compile': lambda: [Script.compile(x) for x in ([0x51, b'a'], [(0x4c, b'a')], [(Opcode(0x4d), b'a')], [Opcode(0x61)])] + [call(Script.compile, [None])[1]], 'repr': lambda: [repr(x) for x in (PrivateKey(1), PublicKey.from_bytes(pub(1)), Address(H), Opcode(0x51), Instruction(Opcode(1), b'a'), Instruction(Opcode(0x51)))],
    'texts of scripts': lambda: [call(Script.from_string, t)[1] for t in ('OP_PUSHDATA1 1 0xab', 'OP_PUSHDATA2 2 0xabcd', 'OP_PUSHDATA1 2 0xab', '2 0xab', '1 ab', 'OP_PUSHDATA1', 'OP_PUSHDATA1 x 0x', 'OP_16 OP_TRUE', '\u00b2 0x')], 'Unit more': lambda: [Unit(btc=0.1), Unit(mbtc=0.1), Unit(bits=0.1), Unit(satoshis=7), repr(Unit(btc=1))],
    'hd bad': lambda: [call(f, x)[1] for f, x in ((HDPrivateKey.from_string, 'x'), (HDPublicKey.from_string, 'x'), (HDPrivateKey.from_seed, b'1'), (HDPublicKey.from_string, bip32.master(patterned(32, 1)).text()), (HDPrivateKey.from_string, bip32.master(patterned(32, 1)).neuter().text()))],
}.items(): op('misc enc', n, f, 2)

# ---- curve helpers, on two curves with common coordinates
def tiny():
    c = EC.CurveFp(23, 1, 4)
    return EC.Point(c, 0, 2, 29)
def tiny2():
    c = EC.CurveFp(37, 1, 4)
    return EC.Point(c, 0, 2)
op('ec enc', 'tiny multiples', lambda: [show(k * tiny()) for k in range(1, 29)])
op('ec enc', 'tiny2 multiples', lambda: [show(tiny2() * k) for k in range(1, 6)])
op('ec enc', 'tiny sum', lambda: (tiny() + 2 * tiny(), tiny().double()))
op('ec', 'generator * 7', lambda: 7 * secp256k1.generator_secp256k1, 1)
op('ec', 'generator * -', lambda: (N - 1) * secp256k1.generator_secp256k1, 12)
op('ec enc', 'inverse', lambda: [NT.inverse_mod(3, m) for m in (7, 11, 101)])
op('ec enc', 'sqrt', lambda: [NT.modular_sqrt(4, m) for m in (7, 11, 13, 17)])
import hashlib
op('ec enc', 'nonce 256', lambda: E.deterministic_generate_k(N, 5, 7))
op('ec enc', 'nonce 512', lambda: E.deterministic_generate_k(N, 5, 7, hashlib.sha512))
op('ec enc', 'nonce other', lambda: E.deterministic_generate_k(N, 5, 8))
op('ec', 'E.sign', lambda: E.sign(secp256k1.generator_secp256k1, 5, 7), 14)
op('ec', 'E.verify', lambda: E.verify(secp256k1.generator_secp256k1, ec.mul_g(5), 7, ec.sign(5, 7, 99)), 28)
op('ec', 'E.verify wrong', lambda: E.verify(secp256k1.generator_secp256k1, ec.mul_g(6), 7, ec.sign(5, 7, 99)), 28)
op('ec', 'public_pair_for_x', lambda: [E.public_pair_for_x(secp256k1.generator_secp256k1, ec.mul_g(5)[0], e) for e in (True, False)], 1)
op('ec', 'recover', lambda: sorted(E.possible_public_pairs_for_signature(secp256k1.generator_secp256k1, 7, ec.sign(5, 7, 99))), 60)
op('ec enc', 'recover tiny', lambda: [sorted(E.possible_public_pairs_for_signature(tiny(), v, (r, 2))) for v in (1, 2) for r in (1, 4)])
op('ec enc', 'nonce small order', lambda: [E.deterministic_generate_k(n, 5, 7) for n in (11, 29, 1009, 2 ** 521 - 1)])
op('ec enc', 'sec', lambda: [call(UE.sec_to_public_pair, k)[1] for k in (K1, K2, pub(1, False))], 1)

"""Spends, judged by the reference: locking scripts, signature checks, verdicts."""
from .common import *
from .ref import tx as T, vm

STANDARD = vm.P2SH | vm.STRICTENC | vm.DERSIG | vm.LOW_S | vm.NULLDUMMY | vm.SIGPUSHONLY | vm.MINIMALDATA


def p2pkh(hash20): return b'\x76\xa9\x14' + hash20 + b'\x88\xac'
def p2sh(redeem): return b'\xa9\x14' + B.hash160(redeem) + b'\x87'
def number(n): return b'\0' if n == 0 else bytes([0x50 + n])
def multisig(m, pubs): return number(m) + b''.join(map(T.push, pubs)) + number(len(pubs)) + b'\xae'


def vin(i): return (i.tx_id, i.txo_index, i.script.to_bytes(), i.seq_number)
def vout(o): return (o.amount, o.script.to_bytes())
def view(t): return (t.version, tuple(map(vin, t.inputs)), tuple(map(vout, t.outputs)), t.lock_time)


@functools.lru_cache(100000)
def valid_sig(sig, key, digest):
    rs = B.der_parse(sig)
    pt = ec.sec_parse(key)
    if rs is None or pt is None: return False
    return ec.verify(pt[0], int.from_bytes(digest, 'big'), rs[0], rs[1])


def checker(data, nin, digest=T.sighash):
    def checksig(sig, key, code, flags):
        if not sig: return False
        if flags & vm.LOW_S:
            rs = B.der_parse(sig[:-1])
            if rs is None or rs[1] > N // 2: raise vm.Fail('high S')
        return valid_sig(bytes(sig[:-1]), bytes(key), digest(data, nin, code, sig[-1]))
    return checksig


def spends(data, nin, lock, flags=STANDARD, digest=T.sighash):
    """Whether input `nin` of the plain-data transaction satisfies the locking script, by the reference rules."""
    script = data[1][nin][2]
    return vm.verify(script, lock, flags, {'checksig': checker(data, nin, digest), 'lock': data[3], 'seq': data[1][nin][3]})


def keys(spec):
    """spec: (secret, compressed, network) -> PrivateKey"""
    return PrivateKey(spec[0], NETS[spec[2]], spec[1])


def key_pub(spec): return pub(spec[0], spec[1])

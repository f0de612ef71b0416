"""Runs the implementation's interpreter and the reference side by side."""
from .common import *
from .ref import tx as T, vm
from .ref.opcodes import NAMES, DISABLED, SIGOPS
from bitforge.script.interpreter import Interpreter

CAST = 'cast_to_bool: true values whose first byte is zero'
_probe = {}


def impl(sig, pub_script, flags=0, tx=None, nin=0):
    """The verdict, or the exception that escaped."""
    args = (Script.from_bytes(sig), Script.from_bytes(pub_script))
    try:
        if tx is None and nin == 0: return Interpreter().verify(*args, flags=flags)
        return Interpreter().verify(args[0], args[1], tx, nin, flags)
    except Exception as e:
        return e


class Quirks(object):
    """Values that the implementation is known to take for false (only while it does, and only if the finding is listed)."""

    def __init__(self, rep): self.rep = rep

    def __contains__(self, v):
        v = bytes(v)
        if len(v) < 2 or v[0] != 0 or not vm.as_bool(v): return False
        if not self.rep.is_known(CAST): return False
        if v not in _probe: _probe[v] = impl(T.push(v), b'') is False
        if _probe[v]: self.rep.found.add(CAST)
        return _probe[v]


def push(v): return b'\0' if v == b'' else T.push(v)


def compare(rep, sig, pub_script, flags=0, ctx=None, tx=None, nin=0, quirks=None):
    want = vm.verify(sig, pub_script, flags, ctx, Quirks(rep) if quirks is None else quirks)
    got = impl(sig, pub_script, flags, tx, nin)
    rep.step()
    rep.traces += 1
    if got is not want:
        rep.fail('verify(%s, %s, flags = 0x%x) gives %s, expected %s' % (
            short(disasm(sig)), short(disasm(pub_script)), flags, 'an exception: %r' % got if isinstance(got, Exception) else repr(got), want))
    rep.outcome('accepted' if want else 'rejected')
    return want


BY_NUMBER = {}
for _n, _v in NAMES.items(): BY_NUMBER.setdefault(_v, _n)


def disasm(raw):
    try:
        return ' '.join(BY_NUMBER.get(o, 'OP_%02x' % o) if d is None else '[%s]' % d.hex() for o, d in T.script_ops(raw)) or '(empty)'
    except T.Bad:
        return raw.hex()


def observe(stack):
    """A script that is true exactly on this stack."""
    out = b''
    for v in reversed(stack): out += push(v) + b'\x88'
    return out + b'\x74\x00\x87'


def effect(rep, sig, pub_script, flags=0):
    """The implementation must leave exactly the reference's stack, or fail if it does."""
    q = Quirks(rep)
    stack = []
    try:
        vm.evaluate(sig, stack, flags, None, q)
        vm.evaluate(pub_script, stack, flags, None, q)
        tail, want = observe(stack), True
    except vm.Fail:
        tail, want = b'\x51', False
    rep.state(tuple(bytes(x) for x in stack), want)
    got = impl(sig, pub_script + tail, flags)
    rep.step()
    rep.traces += 1
    if got is not want:
        rep.fail('after %s | %s (flags 0x%x) the reference %s, the implementation does not agree (%r)' % (
            disasm(sig), disasm(pub_script), flags, 'has the stack %s' % [bytes(v).hex() for v in stack] if want else 'fails', got))
    rep.outcome('runs' if want else 'fails')

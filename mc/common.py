"""Helpers shared by the checks: the implementation, its error families, edit neighbourhoods."""
import functools, itertools, sys
from . import core
from .core import call, short
from .ref import basics as B, ec

_hook = any(a.upper() in ('C06', 'C25', 'C26', 'C27') for a in sys.argv)   # these own the entropy source
bf = core.load_impl(entropy_hook=_hook)

from bitforge import networks, encoding, utils                       # noqa: E402
from bitforge.errors import BitforgeError                            # noqa: E402
from bitforge.tools import Buffer                                    # noqa: E402
from bitforge import (PrivateKey, PublicKey, Address, HDPrivateKey, HDPublicKey, Script, Opcode, Instruction,  # noqa: E402
                      Transaction, Input, AddressInput, ScriptInput, MultisigInput,
                      Output, AddressOutput, ScriptOutput, MultisigOutput, DataOutput, Unit, URI)
from bitforge.script import script as script_module, opcode as opcode_module   # noqa: E402

NETS = {'livenet': networks.livenet, 'testnet': networks.testnet}
NETNAMES = ('livenet', 'testnet')
VERSION = {('livenet', 'pubkey'): 0, ('livenet', 'script'): 5, ('testnet', 'pubkey'): 111, ('testnet', 'script'): 196}
WIF = {'livenet': 128, 'testnet': 239}
PRINTABLE = ''.join(chr(c) for c in range(32, 127))
N = ec.N


def refused(rep, family, what, f, *args, **kw):
    """f must raise an exception of `family`, printable."""
    rep.step()
    kind, val = call(f, *args, **kw)
    if kind == 'ok':
        rep.fail('%s: accepted as %s, expected an error' % (what, short(val)))
    elif not isinstance(val, family):
        rep.fail('%s: escaped with %s: %s' % (what, type(val).__mro__[:3], short(str_of(val))))
    else:
        text = str_of(val)
        if text is None:
            rep.fail('%s: the error %s cannot be printed' % (what, type(val).__name__))
    rep.traces += 1
    return val


def str_of(e):
    try:
        return str(e)
    except Exception:
        return None


def agree(rep, what, want, f, args=(), family=BitforgeError, view=lambda x: x):
    """f(*args) must give `want` (compared after `view`), or be refused if want is None."""
    if want is None:
        refused(rep, family, what, f, *args)
        rep.outcome('refused')
        return None
    rep.step()
    kind, val = call(f, *args)
    if kind == 'err':
        rep.fail('%s: raised %s: %s, expected %s' % (what, type(val).__name__, str_of(val), short(want)))
    rep.equal(view(val), want, what)
    rep.outcome('accepted')
    return val


def edits(text, alphabet, transpose=True):
    """Every text at edit distance one (substitution, deletion, insertion, swap of any two)."""
    seen = {text}
    n = len(text)
    def new(t):
        if t in seen: return False
        seen.add(t)
        return True
    for i in range(n):
        for c in alphabet:
            t = text[:i] + c + text[i + 1:]
            if new(t): yield t
    for i in range(n):
        t = text[:i] + text[i + 1:]
        if new(t): yield t
    for i in range(n + 1):
        for c in alphabet:
            t = text[:i] + c + text[i:]
            if new(t): yield t
    if transpose:
        for i in range(n):
            for j in range(i + 1, n):
                t = text[:i] + text[j] + text[i + 1:j] + text[i] + text[j + 1:]
                if new(t): yield t


AROUND = ['0x', '0X', 'x', 'X', '\\x', '#', '$', '&H', '0', '1', '00', '11', ' ', '  ', '\t', '\n', '\r\n', '\0', '\x0b', '\x85', '\xa0', '\u2003', '\u200b', '\ufeff', '"', "'", '`', '<', '>', '[', ']', '(', ')', '{', '}',
          'b', "b'", 'u', 'h', 'H', 'L', '+', '-', '_', '=', '==', '.', ',', ';', ':', '/', '//', '\\', '|', '*', '?', '%', '%20', '@', '~', '^', '!', 'bitcoin:', 'BITCOIN:', 'bitcoin://', 'wif:', 'hex:', 'K', 'L', '5', 'm', 'n', '2', '3']


def decorated(text):
    """The ways in which a text is found in the wild without being one: with something around it, grouped, or in another case."""
    seen = {text}
    def out():
        for d in AROUND:
            yield d + text
            yield text + d
            yield d + text + d
        for a, b in ('<>', '[]', '()', '{}'): yield a + text + b
        yield "b'" + text + "'"
        yield 'b"' + text + '"'
        for sep in (' ', ':', '-', '_', '\n', '\r\n', '0x', '\\x', ',', '\t', '.', '\u200b'):
            for n in (1, 2, 4, 8, 16, 32, 64, 76):
                parts = [text[i:i + n] for i in range(0, len(text), n)]
                yield sep.join(parts)
                yield sep + sep.join(parts)
                yield sep.join(parts) + sep
        yield from (text.upper(), text.lower(), text.swapcase(), text.capitalize(), text.title(), text[::-1], text + text, text + ' ' + text)
        half = len(text) // 2
        yield from (text[:half], text[half:], text[half:] + text[:half], text[:half].upper() + text[half:], text[:half] + text[half:].upper())
        yield ''.join(text[i:i + 2] for i in range(len(text) - 2, -1, -2))
        for frm, to in (('0', 'O'), ('0', 'o'), ('1', 'l'), ('1', 'I'), ('O', '0'), ('l', '1'), ('I', '1'), ('0', '\u0660'), ('1', '\uff11'), ('a', '\uff41'), ('A', '\u0410'), ('e', '\u0435'), ('f', '\u0192')):
            yield text.replace(frm, to)
            yield text.replace(frm, to, 1)
    for t in out():
        if t not in seen:
            seen.add(t)
            yield t


@functools.lru_cache(None)
def pub(secret, compressed=True):
    """The reference's public key bytes."""
    return ec.sec(ec.mul_g(secret), compressed)


def patterned(n, seed=0):
    """n fixed, non-repeating-looking bytes."""
    import hashlib
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b'%d/%d' % (seed, i)).digest()
        i += 1
    return out[:n]


def bitints(width, low=0, high=None):
    """Integers of every bit length up to `width`: alone, with all bits set, next to them, and from the top down."""
    high = 2 ** width - 1 if high is None else high
    out = set()
    for k in range(width + 1):
        for v in (2 ** k - 1, 2 ** k, 2 ** k + 1, 2 ** width - 2 ** k, 2 ** width - 2 ** k - 1, 3 * 2 ** k, 0xa5a5a5a5 * 2 ** k, (2 ** width // 3) >> k): out.add(v)
    return sorted(v for v in out if low <= v <= high)


def bytelike(base):
    """Byte strings like `base`: every value of the first and of the last byte, a few values at each other place, runs of one byte at either end."""
    n = len(base)
    out = {base: None}
    for v in range(256):
        out[bytes([v]) + base[1:]] = None
        out[base[:-1] + bytes([v])] = None
    for i in range(1, n - 1):
        for v in (0, 1, 0x7f, 0x80, 0xff): out[base[:i] + bytes([v]) + base[i + 1:]] = None
    for k in range(1, n + 1):
        for v in (0, 0xff, base[0]):
            out[bytes([v]) * k + base[k:]] = None
            out[base[:n - k] + bytes([v]) * k] = None
    return list(out)

"""Independent reference: transaction wire format, strict parser, legacy signature hash."""
from .basics import varint, dsha


def ser_in(i):
    txid, n, script, seq = i
    return bytes.fromhex(txid)[::-1] + n.to_bytes(4, 'little') + varint(len(script)) + script + seq.to_bytes(4, 'little')


def ser_out(o):
    amount, script = o
    return amount.to_bytes(8, 'little') + varint(len(script)) + script


def ser(tx):
    version, ins, outs, lock = tx
    return (version.to_bytes(4, 'little') + varint(len(ins)) + b''.join(map(ser_in, ins)) +
            varint(len(outs)) + b''.join(map(ser_out, outs)) + lock.to_bytes(4, 'little'))


def txid(tx): return dsha(ser(tx))[::-1].hex()


class Bad(Exception): pass


class Reader(object):
    def __init__(self, b): self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b): raise Bad('short')
        self.i += n
        return self.b[self.i - n:self.i]

    def u(self, n): return int.from_bytes(self.take(n), 'little')

    def varint(self):
        t = self.u(1)
        if t < 0xfd: return t
        v = self.u({0xfd: 2, 0xfe: 4, 0xff: 8}[t])
        if v < {0xfd: 0xfd, 0xfe: 0x10000, 0xff: 0x100000000}[t]: raise Bad('varint')
        return v

    def txin(self):
        h = self.take(32)[::-1].hex(); n = self.u(4); s = self.take(self.varint()); q = self.u(4)
        script_ops(s)
        return h, n, s, q

    def txout(self):
        a = self.u(8); s = self.take(self.varint())
        script_ops(s)
        return a, s

    def done(self):
        if self.i != len(self.b): raise Bad('trailing')


def script_ops(s):
    """[(opcode, data or None)], or Bad if a push runs past the end."""
    out, i = [], 0
    while i < len(s):
        op = s[i]; i += 1
        if 1 <= op <= 75: n = op
        elif op in (76, 77, 78):
            w = {76: 1, 77: 2, 78: 4}[op]
            if i + w > len(s): raise Bad('length')
            n = int.from_bytes(s[i:i + w], 'little'); i += w
        else:
            out.append((op, None)); continue
        if i + n > len(s): raise Bad('push')
        out.append((op, s[i:i + n])); i += n
    return out


def parse(b):
    """The transaction, or Bad. Requires at least one input and output, and well-formed scripts, as bitforge does."""
    r = Reader(b)
    version = r.u(4)
    n = r.varint()
    ins = []
    for _ in range(n): ins.append(r.txin())
    n = r.varint()
    outs = []
    for _ in range(n): outs.append(r.txout())
    lock = r.u(4)
    r.done()
    if not ins or not outs: raise Bad('empty')
    return version, tuple(ins), tuple(outs), lock


def sighash(tx, nin, code, htype):
    """Legacy signature hash (without FindAndDelete / OP_CODESEPARATOR, which no script here contains)."""
    version, ins, outs, lock = tx
    base = htype & 0x1f
    if base == 3 and nin >= len(outs):
        return b'\1' + b'\0' * 31
    new = []
    for j, (h, n, s, q) in enumerate(ins):
        if j == nin: new.append((h, n, code, q))
        else: new.append((h, n, b'', 0 if base in (2, 3) else q))
    if htype & 0x80: new = [new[nin]]
    if base == 2: outs = ()
    elif base == 3: outs = tuple([(0xffffffffffffffff, b'')] * nin) + (outs[nin],)
    return dsha(ser((version, tuple(new), tuple(outs), lock)) + htype.to_bytes(4, 'little'))


PUSH_MIN = None


def push(data):
    """Shortest length-based push (no OP_N), as Script.compile does."""
    n = len(data)
    if 1 <= n <= 75: return bytes([n]) + data
    if n <= 0xff: return b'\x4c' + bytes([n]) + data
    if n <= 0xffff: return b'\x4d' + n.to_bytes(2, 'little') + data
    return b'\x4e' + n.to_bytes(4, 'little') + data

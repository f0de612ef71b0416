"""
Independent reference: Bitcoin's script rules, as of bitcoind b5d1b109 (the
revision bitforge names), working on raw script bytes.  Signature checks are
delegated to `checksig(sig, pubkey, code)`; `None` makes every one undefined
(an Undefined exception), for the checks that leave signatures out.
"""
from .basics import num_dec, num_enc, num_minimal, rmd160, sha1, sha256, dsha, hash160, strict_der
from .tx import script_ops, Bad
from .opcodes import NAMES, DISABLED

for _n, _v in NAMES.items(): globals()[_n] = _v

P2SH, STRICTENC, DERSIG, LOW_S, NULLDUMMY, SIGPUSHONLY, MINIMALDATA, DISCOURAGE, CLTV = (
    1 << i for i in (0, 1, 2, 3, 4, 5, 6, 7, 9))

T, F = b'\1', b''


class Fail(Exception): pass
class Undefined(Exception): pass


def as_bool(v, quirks=()):
    if v in quirks: return False
    return any(v[:-1]) or (len(v) > 0 and v[-1] not in (0, 0x80))


def minimal_push(op, data):
    n = len(data)
    if n == 0: return op == OP_0
    if n == 1 and 1 <= data[0] <= 16: return op == OP_1 + data[0] - 1
    if n == 1 and data[0] == 0x81: return op == OP_1NEGATE
    if n <= 75: return op == n
    if n <= 255: return op == OP_PUSHDATA1
    if n <= 65535: return op == OP_PUSHDATA2
    return True


def need(stack, n):
    if len(stack) < n: raise Fail('stack')


def evaluate(script, stack, flags, ctx, quirks=(), visit=None):
    """Runs `script` on `stack` (a list, modified); raises Fail."""
    if len(script) > 10000: raise Fail('size')
    try:
        ops = script_ops(script)
    except Bad:
        ops = None
    if ops is None: raise Fail('parse')        # any script with a bad push fails when it gets there, or earlier
    minimal = bool(flags & MINIMALDATA)
    alt, conds, nops = [], [], 0

    def num(v, size=4):
        if len(v) > size: raise Fail('number size')
        if minimal and not num_minimal(v): raise Fail('number not minimal')
        return num_dec(v)

    def pop():
        need(stack, 1)
        return stack.pop()

    def checkmultisig(nops):
        need(stack, 1)
        nk = num(stack[-1])
        if not 0 <= nk <= 20: raise Fail('key count')
        nops += nk
        if nops > 201: raise Fail('op count')
        need(stack, nk + 2)
        ns = num(stack[-2 - nk])
        if not 0 <= ns <= nk: raise Fail('signature count')
        need(stack, nk + ns + 3)
        keys = stack[len(stack) - 1 - nk:-1]
        base = len(stack) - 2 - nk
        sigs = stack[base - ns:base]
        dummy = stack[base - ns - 1]
        ks, ss = list(keys), list(sigs)
        ok = True
        # bitcoind compares from the last one back; the result is the same order-preserving matching
        while ss:
            if len(ss) > len(ks):
                ok = False
                break
            if check_one(ss[-1], ks[-1]): ss.pop()
            ks.pop()
        del stack[base - ns - 1:]
        if flags & NULLDUMMY and len(dummy): raise Fail('dummy')
        return ok, nops

    def check_one(sig, key):
        if ctx is None or ctx.get('checksig') is None: raise Undefined()
        if len(sig) and flags & (DERSIG | LOW_S | STRICTENC) and not strict_der(sig): raise Fail('der')
        return ctx['checksig'](sig, key, script, flags)

    for op, data in ops:
        live = all(conds)
        if data is not None and len(data) > 520: raise Fail('push size')
        if op > OP_16:
            nops += 1
            if nops > 201: raise Fail('op count')
        if op in DISABLED: raise Fail('disabled')
        if visit: visit(op, live)
        if not live and not OP_IF <= op <= OP_ENDIF:
            continue
        if op <= OP_PUSHDATA4:
            data = b'' if data is None else data
            if minimal and not minimal_push(op, data): raise Fail('minimal push')
            stack.append(data)
        elif op == OP_1NEGATE or OP_1 <= op <= OP_16:
            stack.append(num_enc(op - OP_1 + 1))
        elif op == OP_NOP or op == OP_CODESEPARATOR:
            pass
        elif op == OP_CHECKLOCKTIMEVERIFY:
            if not flags & CLTV:
                if flags & DISCOURAGE: raise Fail('nop')
            else:
                need(stack, 1)
                want = num(stack[-1], 5)
                if want < 0: raise Fail('negative lock time')
                lock, seq = ctx['lock'], ctx['seq']
                if (want >= 500000000) != (lock >= 500000000): raise Fail('lock time kind')
                if want > lock: raise Fail('lock time')
                if seq == 0xffffffff: raise Fail('final')
        elif op == OP_NOP1 or OP_NOP3 <= op <= OP_NOP10:
            if flags & DISCOURAGE: raise Fail('nop')
        elif op in (OP_IF, OP_NOTIF):
            value = False
            if live:
                need(stack, 1)
                value = as_bool(stack.pop(), quirks) != (op == OP_NOTIF)
            conds.append(value)
        elif op == OP_ELSE:
            if not conds: raise Fail('else')
            conds[-1] = not conds[-1]
        elif op == OP_ENDIF:
            if not conds: raise Fail('endif')
            conds.pop()
        elif op == OP_VERIFY:
            if not as_bool(pop(), quirks): raise Fail('verify')
        elif op == OP_TOALTSTACK:
            alt.append(pop())
        elif op == OP_FROMALTSTACK:
            need(alt, 1)
            stack.append(alt.pop())
        elif op == OP_2DROP:
            need(stack, 2); del stack[-2:]
        elif op == OP_2DUP:
            need(stack, 2); stack.extend(stack[-2:])
        elif op == OP_3DUP:
            need(stack, 3); stack.extend(stack[-3:])
        elif op == OP_2OVER:
            need(stack, 4); stack.extend(stack[-4:-2])
        elif op == OP_2ROT:
            need(stack, 6); x = stack[-6:-4]; del stack[-6:-4]; stack.extend(x)
        elif op == OP_2SWAP:
            need(stack, 4); x = stack[-4:-2]; del stack[-4:-2]; stack.extend(x)
        elif op == OP_IFDUP:
            need(stack, 1)
            if as_bool(stack[-1], quirks): stack.append(stack[-1])
        elif op == OP_DEPTH:
            stack.append(num_enc(len(stack)))
        elif op == OP_DROP:
            pop()
        elif op == OP_DUP:
            need(stack, 1); stack.append(stack[-1])
        elif op == OP_NIP:
            need(stack, 2); del stack[-2]
        elif op == OP_OVER:
            need(stack, 2); stack.append(stack[-2])
        elif op in (OP_PICK, OP_ROLL):
            need(stack, 2)
            n = num(stack.pop())
            if not 0 <= n < len(stack): raise Fail('index')
            stack.append(stack[-1 - n] if op == OP_PICK else stack.pop(-1 - n))
        elif op == OP_ROT:
            need(stack, 3); stack.append(stack.pop(-3))
        elif op == OP_SWAP:
            need(stack, 2); stack.append(stack.pop(-2))
        elif op == OP_TUCK:
            need(stack, 2); stack.insert(-2, stack[-1])
        elif op == OP_SIZE:
            need(stack, 1); stack.append(num_enc(len(stack[-1])))
        elif op in (OP_EQUAL, OP_EQUALVERIFY):
            need(stack, 2)
            same = stack.pop() == stack.pop()
            if op == OP_EQUAL: stack.append(T if same else F)
            elif not same: raise Fail('equalverify')
        elif op in (OP_1ADD, OP_1SUB, OP_NEGATE, OP_ABS, OP_NOT, OP_0NOTEQUAL):
            need(stack, 1)
            n = num(stack.pop())
            stack.append(num_enc({OP_1ADD: n + 1, OP_1SUB: n - 1, OP_NEGATE: -n, OP_ABS: abs(n),
                                  OP_NOT: int(n == 0), OP_0NOTEQUAL: int(n != 0)}[op]))
        elif OP_ADD <= op <= OP_MAX:        # the disabled ones in between are gone already
            need(stack, 2)
            a, b = num(stack[-2]), num(stack[-1])
            del stack[-2:]
            v = {OP_ADD: a + b, OP_SUB: a - b, OP_BOOLAND: int(a != 0 and b != 0), OP_BOOLOR: int(a != 0 or b != 0),
                 OP_NUMEQUAL: int(a == b), OP_NUMEQUALVERIFY: int(a == b), OP_NUMNOTEQUAL: int(a != b),
                 OP_LESSTHAN: int(a < b), OP_GREATERTHAN: int(a > b), OP_LESSTHANOREQUAL: int(a <= b),
                 OP_GREATERTHANOREQUAL: int(a >= b), OP_MIN: min(a, b), OP_MAX: max(a, b)}[op]
            if op == OP_NUMEQUALVERIFY:
                if not v: raise Fail('numequalverify')
            else:
                stack.append(num_enc(v))
        elif op == OP_WITHIN:
            need(stack, 3)
            x, lo, hi = (num(v) for v in stack[-3:])
            del stack[-3:]
            stack.append(T if lo <= x < hi else F)
        elif OP_RIPEMD160 <= op <= OP_HASH256:
            need(stack, 1)
            f = {OP_RIPEMD160: rmd160, OP_SHA1: sha1, OP_SHA256: sha256, OP_HASH160: hash160, OP_HASH256: dsha}[op]
            stack.append(f(stack.pop()))
        elif op in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
            need(stack, 2)
            ok = check_one(stack[-2], stack[-1])
            del stack[-2:]
            if op == OP_CHECKSIG: stack.append(T if ok else F)
            elif not ok: raise Fail('checksigverify')
        elif op in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
            ok, nops = checkmultisig(nops)
            if op == OP_CHECKMULTISIG: stack.append(T if ok else F)
            elif not ok: raise Fail('checkmultisigverify')
        else:
            raise Fail('bad opcode')
        if len(stack) + len(alt) > 1000: raise Fail('stack size')
    if conds: raise Fail('unbalanced')


def push_only(script): return all(op <= OP_16 for op, _ in script_ops(script))


def is_p2sh(script): return len(script) == 23 and script[0] == OP_HASH160 and script[1] == 20 and script[22] == OP_EQUAL


def verify(sig, pub, flags=0, ctx=None, quirks=()):
    """The verdict for parseable scripts; may raise Undefined."""
    try:
        if flags & SIGPUSHONLY and not push_only(sig): return False
        stack = []
        evaluate(sig, stack, flags, ctx, quirks)
        saved = list(stack)
        evaluate(pub, stack, flags, ctx, quirks)
        if not stack or not as_bool(stack[-1], quirks): return False
        if flags & P2SH and is_p2sh(pub):
            if not push_only(sig): return False
            redeem = saved.pop()
            evaluate(redeem, saved, flags, ctx, quirks)
            if not saved or not as_bool(saved[-1], quirks): return False
        return True
    except Fail:
        return False

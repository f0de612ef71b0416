"""C22: payment URIs."""
from ..common import *

ID = 'C22'
RULE = ('State: the content of a URI (address, amount, label, message, payment URL, other parameters). Every content is written and read back; the text itself is '
        'split by an independent reader (scheme, address, percent-encoded parameters). Validity is compared with an independent definition on texts enumerated '
        'around valid ones: every single edit of scheme and address, every amount text of a small grammar; on arbitrary texts asking must not raise and must '
        'agree with reading.')
BOUNDS = {
    'quick': 'every single character of the basic plane and 600 others in a text, all pairs of 26 special characters in every text field and in names, all 32 subsets of fields x 4 addresses x 8 amounts, amounts 0..20000 and '
             '~20000 around decimal boundaries up to 21e14; the addresses of 700 hashes; all single edits of scheme (26+ letters) and address (66 characters); all amount texts of length <= 4 over 8 characters; all texts of length <= 2 behind 8 prefixes',
    'thorough': 'all characters of Unicode; amounts 0..1000000; amount texts of length <= 5 over 10 characters; all texts of length <= 3 over 40 characters behind 8 prefixes',
}
ASSUMPTIONS = ['an empty text and an absent one are the same', 'the meaning of repeated parameters, of amounts with exponents, underscores or spaces, and of "//" before the address is not specified: such texts must only not raise']
HASHES = [patterned(20, 3), b'\0' * 20]
SPECIAL = list('&=?#%+;:/@ "\'<>\\^`{|}~\t\n\r\0') + ['é', '€', '\U0001f600']
FIELDS = ('label', 'message', 'r', 'other-param')
ALNUM = B.B58 if hasattr(B, 'B58') else '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def addresses():
    return [B.b58cenc(bytes([VERSION[n, k]]) + h) for n in NETNAMES for k, h in (('pubkey', HASHES[0]), ('script', HASHES[1]))]


ADDR = addresses()


def cases(tier):
    t = tier == 'thorough'
    for lo in range(0, 0x110000 if t else 0x10000, 2048): yield ('chars', lo, lo + 2048)
    if not t: yield ('astral',)
    for i in range(len(SPECIAL)): yield ('pairs', i)
    yield ('subsets',)
    top = 1000000 if t else 20000
    for lo in range(0, top, 2500): yield ('amounts', lo, lo + 2500)
    for b in range(15): yield ('decimals', b)
    yield ('texts',)
    yield ('params',)
    for a in range(len(ADDR)): yield ('address', a)
    for i in range(8): yield ('like', i)
    yield ('scheme',)
    al = '0159.-+e' if not t else '0159.-+eE_'
    for c in al: yield ('grammar', c, al, 5 if t else 4)
    for i in range(8):
        if t:
            for a in range(40): yield ('junk3', i, a)
        for part in range(8): yield ('junk', i, part)


def content(u):
    out = {k: v for k, v in u.extras.items() if v != ''}
    for k in ('label', 'message', 'r'):
        v = getattr(u, k, None)
        if v: out[k] = v
    return u.address.to_string(), None if u.amount is None else u.amount.satoshis, out


def pct(text):
    """Independent decoding of an application/x-www-form-urlencoded piece."""
    out, i = bytearray(), 0
    raw = text.encode('ascii')
    while i < len(raw):
        if raw[i:i + 1] == b'%': out.append(int(raw[i + 1:i + 3], 16)); i += 3
        elif raw[i:i + 1] == b'+': out.append(32); i += 1
        else: out.append(raw[i]); i += 1
    return out.decode('utf-8')


def read(rep, text):
    """The content of a written URI, by an independent reader; every character must be one that may stand in a URI."""
    if not text.startswith('bitcoin:'): rep.fail('%r does not start with bitcoin:' % text)
    for c in text[8:]:
        if not (c.isascii() and (c.isalnum() or c in "-_.~%+&=?*!'()$,:@/")): rep.fail('%s contains the character %r' % (short(text), c))
    addr, q, query = text[8:].partition('?')
    if q and not query: rep.fail('%s ends with ?' % short(text))
    out, amount = {}, None
    for piece in query.split('&') if query else []:
        k, eq, v = piece.partition('=')
        k, v = pct(k), pct(v)
        if k in out or k == 'amount' and amount is not None: rep.fail('%s has %s twice' % (short(text), k))
        if k == 'amount':
            whole, dot, frac = v.partition('.')
            if not whole.isdigit() or not whole.isascii() or dot and not (frac.isascii() and frac.isdigit()) or len(frac) > 8: rep.fail('%s: the amount is not a plain decimal' % short(text))
            amount = int(whole) * 10 ** 8 + int((frac + '0' * 8)[:8])
        elif v != '': out[k] = v
    return addr, amount, out


def trip(rep, addr, amount=None, fields=None):
    fields = dict(fields or {})
    want = (addr, amount, {k: v for k, v in fields.items() if v != ''})
    given = dict(fields, address=addr)
    if amount is not None: given['amount'] = amount
    copy = dict(given)
    u = URI(given)
    rep.step()
    if given != copy: rep.fail('URI(%s) changed the dictionary it was given' % short(copy))
    if content(u) != want: rep.fail('URI(%s) holds %s' % (short(copy), short(content(u))))
    text = u.to_uri()
    rep.step()
    got = read(rep, text)
    if got != want: rep.fail('URI(%s) is written as %s, which says %s' % (short(copy), short(text), short(got)))
    back = URI(text)
    if content(back) != want: rep.fail('%s is read as %s, expected %s' % (short(text), short(content(back)), short(want)))
    if back.to_uri() != text: rep.fail('%s is written again as %s' % (short(text), short(back.to_uri())))
    if URI.is_valid(text) is not True: rep.fail('%s is not valid' % short(text))
    rep.state(text)
    rep.traces += 3
    rep.outcome('kept')


def valid(rep, text, want):
    """want: True, False, or None if only consistency is asked for."""
    rep.step()
    kind, got = call(URI.is_valid, text)
    if kind == 'err': rep.fail('is_valid(%s) raised %s: %s' % (short(text), type(got).__name__, str_of(got)))
    kind, u = call(URI, text)
    if got is not True and got is not False: rep.fail('is_valid(%s) is %r' % (short(text), got))
    if (kind == 'ok') != got: rep.fail('is_valid(%s) is %s, but reading it %s' % (short(text), got, 'works' if kind == 'ok' else 'raises %r' % u))
    if want is not None and got != want: rep.fail('is_valid(%s) is %s' % (short(text), got))
    rep.state('v', text)
    rep.traces += 1
    rep.outcome('valid' if got else 'invalid')
    return u if kind == 'ok' else None


def run(case, rep):
    kind = case[0]
    if kind in ('chars', 'astral'):
        points = range(case[1], case[2]) if kind == 'chars' else list(range(0x10000, 0x10100)) + list(range(0x1f5f0, 0x1f650)) + [0xe0001, 0x10ffff, 0xfffff]
        for cp in points:
            if 0xd800 <= cp < 0xe000: continue
            c = chr(cp)
            trip(rep, ADDR[0], None, {FIELDS[cp % 4]: c, 'k' + c: 'v', FIELDS[(cp + 1) % 4]: 'a' + c + 'b'})
    elif kind == 'pairs':
        a = SPECIAL[case[1]]
        for b in SPECIAL:
            for text in (a + b, 'x' + a + b, a + 'x' + b, a + b + 'x', a, a + a + b + b):
                for f in FIELDS: trip(rep, ADDR[1], 5, {f: text})
                trip(rep, ADDR[1], None, {text: 'x', 'label': text, 'message': b + a, 'r': text})
        rep.sample('texts with %r' % a)
    elif kind == 'subsets':
        values = {'label': 'L & l', 'message': 'M=m', 'r': 'https://x.example/?a=b&c=d#e', 'other-param': '1', 'req-x': 'amount=3'}
        for n in range(6):
            for names in itertools.combinations(sorted(values), n):
                for addr in ADDR:
                    for amount in (None, 0, 1, 10, 10 ** 8, 10 ** 9, 2030000000, 21 * 10 ** 14): trip(rep, addr, amount, {k: values[k] for k in names})
        trip(rep, ADDR[0], 1, {'label': '', 'message': '', 'r': ''})
        for n in list(range(7, 140)) + [255, 256, 257, 1000]: trip(rep, ADDR[n % 4], n if n % 2 else None, dict({'k%d' % i: 'v%d' % (i * n) for i in range(n)}, **({'label': 'L'} if n % 3 else {})))
        trip(rep, ADDR[0], 1, {'label': '0', 'message': 'False', 'r': 'None', 'x': '0', 'Amount': '5', 'LABEL': 'x', 'message ': 'y', 'extras': 'e', 'to_uri': 'f', '__class__': 'g', 'self': 'h'})
        for i, addr in enumerate(ADDR):
            u = URI('bitcoin:%s?address=%s&amount=1' % (addr, ADDR[i - 1]))
            rep.equal(u.address.to_string(), addr, 'the address of a URI with a parameter named address')
    elif kind == 'amounts':
        for n in range(case[1], case[2]): trip(rep, ADDR[n % 4], n)
    elif kind == 'decimals':
        for a in list(range(1, 220)) + [999, 1000, 1001, 20999, 123456]:
            for d in range(-3, 4):
                n = a * 10 ** case[1] + d
                if 0 <= n <= 21 * 10 ** 14: trip(rep, ADDR[n % 4], n)
    elif kind == 'texts':
        # foreign URIs: every way of writing an amount as a decimal
        for n in list(range(0, 300)) + [10 ** 8, 12345678, 123456789, 5 * 10 ** 8, 10 ** 9 + 1, 21 * 10 ** 14 - 1, 21 * 10 ** 14]:
            w, f = divmod(n, 10 ** 8)
            forms = {'%d.%08d' % (w, f), '0%d.%08d' % (w, f), '%d.%08d000' % (w, f)}
            if f == 0: forms |= {'%d' % w, '%d.' % w, '%d.0' % w}
            if w == 0 and f: forms.add('.%08d' % f)
            forms.add(('%d.%08d' % (w, f)).rstrip('0'))
            for form in sorted(forms):
                u = valid(rep, 'bitcoin:%s?amount=%s' % (ADDR[0], form), True)
                rep.equal(u.amount.satoshis, n, 'the amount %s' % form)
                u = valid(rep, 'bitcoin:%s?label=a&amount=%s&x=y' % (ADDR[2], form), True)
                rep.equal(content(u), (ADDR[2], n, {'label': 'a', 'x': 'y'}), 'URI with the amount %s' % form)
        for bad in ('nan', 'NaN', 'inf', '-inf', 'Infinity', '+inf', '-1', '-0.00000001', '-21', 'abc', '1,5', '1.2.3', '0x10', '1%20btc', '--1', '%2D1', '1/2', '%00', '9' * 400, '1e400', '-9e400', '%ff', 'é', '1-', '..', '.', '-', '+', '%2B'):
            valid(rep, 'bitcoin:%s?amount=%s' % (ADDR[0], bad), False); valid(rep, 'bitcoin:%s?label=x&amount=%s' % (ADDR[0], bad), False)
        for label, want in (('%41%42', 'AB'), ('a%20b', 'a b'), ('%C3%A9', 'é'), ('%F0%9F%98%80', '\U0001f600'), ('a%26b%3Dc', 'a&b=c'), ('%2525', '%25'), ('https://x.example/p;v=1?q=2', 'https://x.example/p;v=1?q=2'), ('é', 'é'), ('a%3Bb;c', 'a;b;c')) + tuple(('a%sb' % c, 'a%sb' % c) for c in ";:@/?!$'()*,~-._=|^`{}\"<>\\"):
            for k in ('label', 'message', 'r', 'other'):
                u = valid(rep, 'bitcoin:%s?%s=%s' % (ADDR[0], k, label), True)
                rep.equal(content(u), (ADDR[0], None, {k: want}), 'the text %s' % label)
    elif kind == 'params':                    # whether a URI is valid, and for which address, does not depend on harmless parameters
        A, A2 = ADDR[0], ADDR[1]
        heads = ['%s', '//%s', '//%s/x', '//%s/', '/%s', '//x/%s', '///%s', '%s/', '%s/x', '%s;x', '%s:80', '//%s:80', 'x@%s', '%s@x', '//u@%s', '//%s@u', '%s,', '%s.', '%s ', ' %s', '%%20%s', '%s%%20', '//%s/%%s' % A2, '%s/%%s' % A2, '//%%s//%s' % A2]
        params = ['label=a', 'message=b', 'r=x', 'other=1', 'amount=1']
        for h in heads:
            base = 'bitcoin:' + h % A
            for scheme in ('bitcoin:', 'BITCOIN:'):
                first = None
                for mask in range(32):
                    for order in (1, -1):
                        ps = [p for i, p in enumerate(params) if mask >> i & 1][::order]
                        u = valid(rep, scheme + h % A + ('?' + '&'.join(ps) if ps else ''), True if h in ('%s', '//%s') else None)
                        addr = u and u.address.to_string()
                        if first is None: first = (addr,)
                        rep.equal((addr,), first, 'the address of %s with %s' % (base, ps))
                        if u: rep.equal(content(u)[1:], (10 ** 8 if mask >> 4 & 1 else None, dict(p.split('=') for p in ps if p[0] != 'a')), 'the parameters of %s with %s' % (base, ps))
    elif kind == 'address':
        addr = ADDR[case[1]]
        ok = set(ADDR)
        for e in edits(addr, ALNUM + '0OIl_-.:é/@!$*,;'):
            valid(rep, 'bitcoin:' + e, e in ok)
            valid(rep, 'bitcoin:%s?amount=1' % e, e in ok)
        for n in range(len(addr)): valid(rep, 'bitcoin:' + addr[:n], False); valid(rep, 'bitcoin:' + addr[:n] + '?amount=1', False)
        for v in range(256):
            a = B.b58cenc(bytes([v]) + HASHES[0])
            valid(rep, 'bitcoin:' + a, v in VERSION.values())
        for n in range(0, 40):
            if n != 20: valid(rep, 'bitcoin:' + B.b58cenc(bytes([VERSION['livenet', 'pubkey']]) + patterned(n)), False)
    elif kind == 'like':                      # addresses with every first and last byte of the hash
        for j, h in enumerate(bytelike(HASHES[0])):
            if j % 8 != case[1]: continue
            for k, v in VERSION.items(): trip(rep, B.b58cenc(bytes([v]) + h), j if j % 2 else None, {'label': 'x'} if j % 3 == 0 else {})
    elif kind == 'scheme':
        for s in edits('bitcoin', 'abcdefghijklmnopqrstuvwxyz0123456789+-.BITCON'):
            valid(rep, s + ':' + ADDR[0], s.lower() == 'bitcoin'); valid(rep, s + ':' + ADDR[0] + '?amount=1', s.lower() == 'bitcoin')
        for s in ('', 'litecoin', 'http', 'https', 'mailto', 'btc', 'bitcoincash', 'bitcoin.', 'xbitcoin', 'file'): valid(rep, s + ':' + ADDR[0], False)
        for text in (ADDR[0], '', ':', 'bitcoin', 'bitcoin:', 'bitcoin:?amount=1', '?amount=1', '//' + ADDR[0], 'bitcoin' + ADDR[0]): valid(rep, text, False)
    elif kind == 'grammar':
        _, first, al, n = case
        import re
        plain = re.compile(r'\A([0-9]+\.?[0-9]*|\.[0-9]+)\Z')
        minus = re.compile(r'\A-([0-9]+\.?[0-9]*|\.[0-9]+)\Z')
        for k in range(n):
            for rest in itertools.product(al, repeat=k):
                text = first + ''.join(rest)
                want = None
                if plain.match(text): want = True
                elif minus.match(text): want = False if float(text) < -1e-8 else None
                elif not any(c in text for c in 'eE_+') : want = False
                u = valid(rep, 'bitcoin:%s?amount=%s' % (ADDR[0], text), want)
                if want: 
                    w, _, f = text.partition('.')
                    rep.equal(u.amount.satoshis, int((w or '0') + (f + '0' * 8)[:8]), 'the amount %s' % text)
    elif kind in ('junk', 'junk3'):
        prefix = ['', 'bitcoin:', 'bitcoin://', 'bitcoin:' + ADDR[0], 'bitcoin:%s?' % ADDR[0], 'bitcoin:%s?amount=' % ADDR[0], 'bitcoin:%s?amount=1&' % ADDR[0], 'bitcoin:%s?label=%%' % ADDR[0]][case[1]]
        chars = [chr(c) for c in range(128)] + ['é', '\ud800', '\udcff', '\u2028', '\U0001f600', '\u0660', '\uff11', '\u212a']
        if kind == 'junk3':
            chars = list('&=?#%+;:/@[]\\ \t\n\0"<>0129.-eEiINfnax_') + ['\ud800', '\u0660', '\uff11', 'é']
            for b in chars:
                for c in chars: valid(rep, prefix + chars[case[2] % len(chars)] + b + c, None)
        else:
            for i, a in enumerate(chars):
                if i % 8 != case[2]: continue
                valid(rep, prefix + a, None)
                for b in chars: valid(rep, prefix + a + b, None)

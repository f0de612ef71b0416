"""C21: amounts and units."""
from fractions import Fraction
from ..common import *

ID = 'C21'
RULE = ('State: an amount in satoshis. Every amount of the bounded set is given in each of the four units, as the closest number to it (and as an integer '
        'where it is one), and read back in each; the expected numbers come from exact rational arithmetic. Fiat amounts are compared with exact rationals.')
BOUNDS = {
    'quick': 'every amount 0..400000; a * 10^b +- 2 for a <= 999, b <= 14; 2^k +- 50; the 2000 amounts around each million bitcoins and around 1, 10, 100, ... bitcoins; 66000 amounts spread '
             'evenly (by a prime step) over 0..21e14; 52000 of these with the other sign; fiat: 500 values of either sign x 100 rates',
    'thorough': 'every amount 0..12000000; 3 million amounts spread evenly; fiat: 2000 values x 300 rates',
}
MAX = 21 * 10 ** 14
UNITS = (('satoshis', 1), ('bits', 100), ('mbtc', 10 ** 5), ('btc', 10 ** 8))
STEP = 31818181817          # prime, ~ 66000 steps


def cases(tier):
    t = tier == 'thorough'
    top = 12000000 if t else 400000
    for lo in range(0, top, 10000): yield ('range', lo, lo + 10000)
    for b in range(15): yield ('decimal', b)
    for k in range(51): yield ('range', max(0, 2 ** k - 50), min(MAX, 2 ** k + 50) + 1)
    for b in range(0, 22): yield ('range', max(0, b * 10 ** 14 - 1000), min(MAX, b * 10 ** 14 + 1000) + 1)
    for b in range(0, 8): yield ('range', max(0, 10 ** (8 + b) - 1000), min(MAX, 10 ** (8 + b) + 1000) + 1)
    step = STEP if not t else 699999953
    n = MAX // step
    for lo in range(0, n, 4000): yield ('spread', step, lo, min(n, lo + 4000))
    for part in range(16): yield ('fiat', part, t)
    yield ('bad',)
    for lo in range(0, 40): yield ('negative', lo)


def closest(n, per):
    return float(Fraction(n, per))


def amount(rep, n):
    rep.state(n)
    for name, per in UNITS:
        given = [closest(n, per)]
        if n % per == 0: given.append(n // per)
        for g in given:
            u = Unit(**{name: g})
            rep.step()
            if u.satoshis != n or isinstance(u.satoshis, float): rep.fail('Unit(%s = %r) has %r satoshis, expected %d' % (name, g, u.satoshis, n))
            for other, p in UNITS[1:]:
                got = getattr(u, other)
                if got != closest(n, p): rep.fail('Unit(%s = %r).%s is %r, expected %r' % (name, g, other, got, closest(n, p)))
            rep.traces += 1
    s = str(u)
    if s != '%d satoshis' % n: rep.fail('str(Unit(%d satoshis)) is %r' % (n, s))


def run(case, rep):
    kind = case[0]
    if kind == 'range':
        for n in range(case[1], case[2]): amount(rep, n)
        rep.sample('amounts %d to %d' % (case[1], case[2] - 1))
    elif kind == 'decimal':
        for a in range(1, 1000):
            for d in range(-2, 3):
                n = a * 10 ** case[1] + d
                if 0 <= n <= MAX: amount(rep, n)
    elif kind == 'spread':
        for i in range(case[2], case[3]): amount(rep, i * case[1] % (MAX + 1))
    elif kind == 'negative':                  # what is owed: the same amounts with the other sign
        lo = case[1]
        for n in itertools.chain(range(lo * 250, lo * 250 + 250), range(lo, 51 * 40, 40), (MAX - lo,)):
            if n >= 250 * 40: continue
            amount(rep, -n)
        for k in range(lo, 51, 40):
            for d in range(-50, 51):
                if 0 <= 2 ** k + d <= MAX: amount(rep, -(2 ** k + d))
        for b in range(15):
            for a in range(1 + lo, 1000, 40):
                for d in (-1, 0, 1):
                    if a * 10 ** b + d <= MAX: amount(rep, -(a * 10 ** b + d))
        for i in range(lo, MAX // STEP, 40 * 8): amount(rep, -(i * STEP % (MAX + 1)))
    elif kind == 'fiat':
        _, part, t = case
        values = [2.0 ** k for k in range(-8, 31)] + [i / 100.0 for i in range(0, 2000 if t else 300)] + [i / 3.0 for i in range(1, 40)] + [0, 1, 7, 1000, 123456, 10 ** 9, 0.01, 0.005, 1e-8, 99999999.99] + [10 ** 6 + i * 7919 for i in range(0, 4000 if t else 400, 3)]
        rates = [1, 2, 3, 7, 0.01, 0.5, 100, 227.5, 240, 399.99, 1000, 60000, 68123.45, 1e-3, 1e6] + [2 ** k for k in range(2, 24)] + [2.0 ** -k for k in range(2, 12)] + [10 ** k for k in range(2, 9)] + [i * 1.1 + 0.3 for i in range(285 if t else 45)]
        for i, v in enumerate(values):
            if i % 16 != part: continue
            for v, r in itertools.product((v, -v) if v else (v,), rates):
                want = Fraction(v) / Fraction(r) * 10 ** 8
                if abs(want) > MAX: continue
                u = Unit.from_fiat(v, r)
                rep.step()
                rep.state('fiat', v, r)
                # the quotient and its product by 1e8 are rounded to a number of 53 bits each
                if abs(Fraction(u.satoshis) - want) > Fraction(1, 2) + abs(want) * Fraction(1 + 2 ** 40, 2 ** 92): rep.fail('from_fiat(%r, %r) is %r satoshis, expected about %s' % (v, r, u.satoshis, float(want)))
                rep.traces += 1
                back = Fraction(u.at_rate(r))
                exact = Fraction(u.satoshis, 10 ** 8) * Fraction(r)
                if abs(back - exact) > abs(exact) / 2 ** 50: rep.fail('%r satoshis at the rate %r are worth %r, expected %s' % (u.satoshis, r, float(back), float(exact)))
                amount(rep, u.satoshis)
    else:
        kind, val = call(Unit)
        rep.step()
        if kind == 'ok': rep.fail('Unit() was accepted as %r' % val)
    rep.outcome('exact')

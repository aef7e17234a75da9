import decimal
import re
from decimal import Decimal
from fractions import Fraction
from vlib.core import Family
from vlib import gen
from neocore.Fixed8 import Fixed8

PROP = 'F02'
D = 10 ** 8


def trunc(fr):
    n = abs(fr.numerator) * D // fr.denominator
    return n if fr >= 0 else -n


def exact(ctx, out, want, *what):
    r = ctx.returned('parsed', out, *what)
    ctx.check('exact-amount', isinstance(r, Fixed8) and type(r.value) is int and r.value == want, *what, 'gave', r, 'expected', want)


def digits(rng, n):
    return ''.join(rng.choice('0123456789') if rng.random() < .7 else rng.choice('09') for _ in range(n))


def number_text(rng):
    """decimal text and its exact value"""
    sign = rng.choice(['', '', '', '-', '+'])
    ni = rng.choice([0, 1, 1, 2, 5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 30, 80, 200])
    nf = rng.choice([0, 0, 1, 2, 7, 8, 8, 9, 10, 16, 17, 30, 100])
    if ni == 0 and nf == 0:
        ni = 1
    i, f = digits(rng, ni), digits(rng, nf)
    k = rng.randrange(6)
    if k == 0 and nf:
        f = rng.choice(['0', '9']) * (nf - 1) + rng.choice('123456789')
    body = i + ('.' + f if nf or rng.random() < .1 and ni else '')
    exp = 0
    if rng.random() < .2:
        exp = rng.choice([0, 1, -1, 2, -2, 8, -8, 9, -9, 10, 20, -20, 60, -60, rng.randrange(-90, 90)])
        body += rng.choice('eE') + rng.choice(['', '+'] if exp >= 0 else ['']) + str(exp)
    val = Fraction(int((i + f) or '0'), 10 ** nf) * Fraction(10) ** exp
    if sign == '-':
        val = -val
    return sign + body, val


def with_context(rng):
    """the caller's decimal context must not matter"""
    c = decimal.getcontext()
    c.prec = rng.choice([1, 3, 9, 28, 28, 28, 50])
    c.rounding = rng.choice([decimal.ROUND_HALF_EVEN, decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR])


def text(ctx):
    rng = ctx.rng
    with_context(rng)
    for _ in range(6):
        t, val = number_text(rng)
        if rng.random() < .1:
            t = rng.choice([' ', '\t', '\n', '  ']) + t + rng.choice(['', ' ', '\n'])
        want = trunc(val)
        exact(ctx, ctx.call('TryParse', Fixed8.TryParse, t), want, repr(t))
        out = ctx.call('TryParse(positive)', Fixed8.TryParse, t, require_positive=True) if rng.random() < .5 else ctx.call('TryParse(positive)', Fixed8.TryParse, t, True)
        if val < 0:
            ctx.check('negative-refused', ctx.returned('negative-refused', out) is None, repr(t), 'gave', out.value)
        else:
            exact(ctx, out, want, repr(t), 'positive')
        ctx.seen(len(t), t[:1] in '-+', 'e' in t.lower(), '.' in t, want.bit_length() // 8)


def numbers(ctx):
    """integers, decimal numbers and floats through both entry points"""
    rng = ctx.rng
    with_context(rng)
    # integers
    n = gen.bigint(rng, 400)
    exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, n), n * D, 'int', n)
    exact(ctx, ctx.call('TryParse', Fixed8.TryParse, n), n * D, 'int', n)
    if n < 0:
        ctx.check('negative-refused', ctx.returned('negative-refused', ctx.call('TryParse(positive)', Fixed8.TryParse, n, True)) is None, n)
    # decimals
    t, val = number_text(rng)
    d = Decimal(t)
    exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, d), trunc(val), 'Decimal', t)
    exact(ctx, ctx.call('TryParse', Fixed8.TryParse, d), trunc(val), 'Decimal', t)
    if val < 0:
        ctx.check('negative-refused', ctx.returned('negative-refused', ctx.call('TryParse(positive)', Fixed8.TryParse, d, True)) is None, t)
    # floats stand for the decimal they print as
    k = rng.randrange(5)
    if k == 0:
        f = rng.choice([0.29, 0.57, 0.58, 1.15, 0.1, 0.07, 1e-8, 2e-8, 1.1, 4.35, 8.41, 1e15, 1e16, 1e17, 0.0, -0.0, -0.29, 123456789.12345678, 90071992.54740993, 1e22, 5e-324, 1e-9, 1e300])
    elif k == 1:
        f = rng.randrange(-10 ** 12, 10 ** 12) / 10 ** rng.randrange(0, 9)
    elif k == 2:
        f = rng.uniform(-1e12, 1e12)
    elif k == 3:
        f = float('%de%d' % (rng.randrange(-10 ** 17, 10 ** 17), rng.randrange(-40, 40)))
    else:
        f = rng.randrange(-10 ** 16, 10 ** 16) / 1e8
    val = Fraction(repr(f))
    exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, f), trunc(val), 'float', repr(f))
    exact(ctx, ctx.call('TryParse', Fixed8.TryParse, f), trunc(val), 'float', repr(f))
    exact(ctx, ctx.call('TryParse', Fixed8.TryParse, repr(f)), trunc(val), 'text', repr(f))
    if f < 0:
        ctx.check('negative-refused', ctx.returned('negative-refused', ctx.call('TryParse(positive)', Fixed8.TryParse, f, True)) is None, f)
    ctx.seen(n.bit_length() // 16, n < 0, len(t), k, trunc(val).bit_length() // 8)


def lookalikes(ctx):
    """numbers that are equal but mean different amounts, one after the other"""
    rng = ctx.rng
    with_context(rng)
    for _ in range(4):
        f = rng.choice([0.29, 0.57, 0.58, 1.15, 0.07, 4.35, 8.41, 1.1, rng.randrange(1, 10 ** 6) / 100, rng.randrange(1, 10 ** 9) / 10 ** 5, rng.randrange(1, 10 ** 13) / 10 ** 8, float(rng.randrange(10 ** 6))])
        f = -f if rng.random() < .3 else f
        whole = Decimal(f)                          # every binary digit of the float: equal to it, with the same hash
        for k in rng.sample(range(6), 6):
            if k == 0:
                exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, f), trunc(Fraction(repr(f))), 'float', repr(f))
            elif k == 1:
                exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, whole), trunc(Fraction(whole)), 'Decimal', whole)
            elif k == 2:
                exact(ctx, ctx.call('TryParse', Fixed8.TryParse, f), trunc(Fraction(repr(f))), 'float', repr(f))
            elif k == 3:
                exact(ctx, ctx.call('TryParse', Fixed8.TryParse, whole), trunc(Fraction(whole)), 'Decimal', whole)
            elif k == 4:
                exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, Decimal(repr(f))), trunc(Fraction(repr(f))), 'Decimal', repr(f))
            elif f == int(f):
                exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, int(f)), int(f) * D, 'int', int(f))
        ctx.seen(f < 0, trunc(Fraction(whole)) == trunc(Fraction(repr(f))))


BAD = ['', ' ', 'abc', '1,5', '1.2.3', '0x10', '--1', '+-1', '1e', 'e5', '.', '-', '+', '1 2', '1-', 'nan', 'NaN', '-nan', 'inf', '-inf', 'Infinity', '+Infinity',
       '1/2', '1,000', '$1', '1.0f', 'None', 'True', '１x', '\0', '1\0', '0b1', '1e5.5', '1e+', '..1', 'sNaN', 'nan1', '1.5 GAS', '٣x', '1..', 'ⅷ', '½']


def grouped(ctx):
    """digits grouped by underscores or of another script: the number they show, or no amount"""
    rng = ctx.rng
    with_context(rng)
    for _ in range(4):
        t, val = number_text(rng)
        k = rng.randrange(3)
        if k:
            for _ in range(rng.randrange(1, 4)):
                at = [i for i in range(1, len(t)) if t[i - 1].isdigit() and t[i].isdigit()] or [rng.randrange(len(t) + 1)]
                i = rng.choice(at) if rng.random() < .9 else rng.randrange(len(t) + 1)
                t = t[:i] + '_' + t[i:]
        if k != 1:
            zero = rng.choice([0x660, 0x6f0, 0x966, 0xff10, 0x1d7ce])
            t = ''.join(chr(zero + int(c)) if c in '0123456789' and rng.random() < .8 else c for c in t)
        want = trunc(val)
        for name, kw in (('TryParse', {}), ('TryParse(positive)', {'require_positive': True})):
            out = ctx.call(name, Fixed8.TryParse, t, **kw)
            r = ctx.returned('grouped-digits', out, repr(t))
            if r is not None:
                exact(ctx, out, want, repr(t))
                ctx.check('negative-refused', not (kw and val < 0), repr(t), 'gave', r)
            ctx.seen(name, k, r is None, len(t) // 8)


def not_numbers(ctx):
    rng = ctx.rng
    with_context(rng)
    for _ in range(8):
        if rng.random() < .5:
            t = rng.choice(BAD)
        else:
            good = number_text(rng)[0]
            c = rng.choice('abcxyz,:;$#@!/\\=()[]{}%&*"\'?<>|~`é－')
            i = rng.randrange(len(good) + 1)
            t = good[:i] + c + good[i:]
            if rng.random() < .4:
                # beyond ASCII and underscores what is a number is Python's notion; not judged
                t = gen.decorated(rng, good)
                if not t.isascii() or '_' in t or re.fullmatch(r'\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*', t):
                    continue
        for kw in ({}, {'require_positive': True}):
            out = ctx.call('TryParse', Fixed8.TryParse, t, **kw)
            ctx.check('not-a-number-yields-none', ctx.returned('not-a-number-yields-none', out, repr(t)) is None, repr(t), 'gave', out.value)
        ctx.seen(t[:6])
    for f in (float('nan'), float('inf'), float('-inf'), Decimal('NaN'), Decimal('Infinity'), Decimal('-Infinity'), None):
        out = ctx.call('TryParse', Fixed8.TryParse, f)
        ctx.check('not-a-number-yields-none', ctx.returned('not-a-number-yields-none', out, repr(f)) is None, repr(f), 'gave', out.value)


def satoshis(ctx):
    """every amount of a band, written with eight decimals"""
    rng = ctx.rng
    base = rng.choice([0, 10 ** 8, 10 ** 15, 1 << 53, (1 << 63) - 40, 10 ** 16, 10 ** 25, ctx.index * 20, gen.uint(rng, 63)])
    for v in range(base, base + 20):
        t = '%d.%08d' % divmod(v, D)
        exact(ctx, ctx.call('TryParse', Fixed8.TryParse, t), v, t)
        exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, Decimal(t)), v, t)
        exact(ctx, ctx.call('TryParse', Fixed8.TryParse, '-' + t), -v, '-' + t)
        exact(ctx, ctx.call('TryParse', Fixed8.TryParse, t + '9'), v, t + '9')
        if v < 6 * 10 ** 15:
            exact(ctx, ctx.call('FromDecimal', Fixed8.FromDecimal, float(t)), trunc(Fraction(repr(float(t)))), t)
    ctx.seen(base)


FAMILIES = [Family('grouped', 3000, 60000, grouped), Family('lookalikes', 8000, 60000, lookalikes), Family('text', 40000, 120000, text), Family('numbers', 56000, 150000, numbers), Family('not-numbers', 1500, 30000, not_numbers),
            Family('satoshis', 12000, 30000, satoshis)]

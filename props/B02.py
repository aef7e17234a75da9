import operator
from decimal import Decimal
from fractions import Fraction
from vlib.core import Family
from vlib import gen
from neocore.BigInteger import BigInteger, ZERO, ONE

PROP = 'B02'


def fdiv(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q - (1 if q * abs(b) != abs(a) else 0)
    return q


OPS = {'+': (operator.add, lambda a, b: a + b), '-': (operator.sub, lambda a, b: a - b), '*': (operator.mul, lambda a, b: a * b),
       '/': (operator.truediv, fdiv), '//': (operator.floordiv, fdiv), '%': (operator.mod, lambda a, b: a - b * fdiv(a, b)),
       '+=': (operator.iadd, lambda a, b: a + b), '-=': (operator.isub, lambda a, b: a - b), '*=': (operator.imul, lambda a, b: a * b),
       '/=': (operator.itruediv, fdiv), '//=': (operator.ifloordiv, fdiv), '%=': (operator.imod, lambda a, b: a - b * fdiv(a, b))}
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def big(ctx, out, want, *what):
    r = ctx.returned('exact-result', out, *what)
    ctx.check('closed', type(r) is BigInteger, *what, 'gave a', type(r).__name__)
    ctx.check('exact-result', int(r) == want, *what, 'gave', int(r), 'expected', want)
    return r


def dec(n):
    """decimal text by repeated division"""
    if n == 0:
        return '0'
    s, m = [], abs(n)
    while m:
        m, d = divmod(m, 10)
        s.append('0123456789'[d])
    return ('-' if n < 0 else '') + ''.join(reversed(s))


def pairs(ctx):
    rng = ctx.rng
    size = 500 if ctx.index % 20 else rng.choice([1024, 2048, 4096, 8192])
    a, b = gen.bigint(rng, size), gen.bigint(rng, rng.choice([size, size, 64]))
    k = rng.randrange(6)
    if k == 0:
        b = a
    elif k == 1:
        b = -a
    elif k == 2:
        a = b * gen.bigint(rng, 100) + rng.choice([-1, 0, 1])
    x = BigInteger(a)
    for y in (BigInteger(b), b):
        for sym, (f, oracle) in OPS.items():
            out = ctx.call(sym, f, x, y)
            if b == 0 and sym[0] in '/%':
                ctx.refused('division-by-zero-refused', out)
            else:
                big(ctx, out, oracle(a, b), a, sym, b)
    y = BigInteger(b)
    big(ctx, ctx.call('neg', operator.neg, x), 0 - a, 'neg', a)
    big(ctx, ctx.call('abs', abs, x), a if a > 0 else -a, 'abs', a)
    for n in (0, 1, 7, 8, 9, rng.randrange(600), rng.choice([255, 256, 257, 511, 512, 1023, 1024, 1025, 2049, 4096, 5000, 10007, 65537]) if rng.random() < .2 else 63):
        for sh in (n, BigInteger(n)):
            big(ctx, ctx.call('<<', operator.lshift, x, sh), a * 2 ** n, a, '<<', n)
            big(ctx, ctx.call('>>', operator.rshift, x, sh), fdiv(a, 2 ** n), a, '>>', n)
    for sym, f in CMP.items():
        for other in (y, b):
            got = ctx.returned('comparison', ctx.call(sym, f, x, other))
            ctx.check('comparison', got is f(a, b), a, sym, b, 'gave', got)
        ctx.check('comparison', f(a, y) is f(a, b), a, sym, b)
    ctx.check('sign', x.Sign == (a > 0) - (a < 0), a, x.Sign)
    ctx.check('printing', str(x) == dec(a) and '%s' % x == dec(a) and '{}'.format(x) == dec(a) and '%d' % x == dec(a), a, str(x))
    ctx.check('hashing', hash(x) == hash(a) and {a: 1}.get(x) == 1 and {x: 1}.get(a) == 1 and len({x, BigInteger(a)}) == 1, a)
    ctx.check('value-unchanged', int(x) == a and int(y) == b and int(ZERO) == 0 and int(ONE) == 1)
    ctx.seen(a < 0, b < 0, a.bit_length() // 8, b.bit_length() // 8, k)


def equality(ctx):
    rng = ctx.rng
    a = gen.bigint(rng, rng.choice([8, 53, 64, 256]))
    x = BigInteger(a)
    others = [a, BigInteger(a), a + 1, BigInteger(a + 1), BigInteger(-a), -a, None, str(a), str(a).encode(), float(a), float(a) + 1, Decimal(a), Decimal(a) + 1,
              Fraction(a), Fraction(a, 3), complex(a), [a], (a,), {a}, {a: a}, object(), True, False, NotImplemented, BigInteger, float('nan'), float('inf'), x.ToByteArray()]
    for o in others:
        got = ctx.returned('equals', ctx.call('Equals', x.Equals, o), a, o)
        try:
            want = bool(a == o)
        except Exception:
            want = False
        ctx.check('equals', got is want, a, 'Equals', o, 'gave', got)
        ctx.check('equals', (x == o) is want and (x != o) is (not want), a, '==', o)
    ctx.check('sign', x.Sign == (a > 0) - (a < 0) and ZERO.Sign == 0 and ONE.Sign == 1, a)
    ctx.seen(a.bit_length(), a < 0)


def chain(ctx):
    """results chained through further operations and conversions"""
    rng = ctx.rng
    pool = [(BigInteger(v), v) for v in (gen.bigint(rng, 200) for _ in range(4))] + [(ZERO, 0), (ONE, 1)]
    for step in range(rng.randrange(5, 40)):
        (x, a), (y, b) = rng.choice(pool), rng.choice(pool)
        k = rng.randrange(10)
        if k < 6:
            sym = rng.choice(list(OPS))
            if b == 0 and sym[0] in '/%':
                continue
            f, oracle = OPS[sym]
            want = oracle(a, b)
            r = big(ctx, ctx.call(sym, f, x, y), want, a, sym, b)
        elif k == 6:
            n = rng.randrange(70)
            want = a << n
            r = big(ctx, ctx.call('<<', operator.lshift, x, n), want, a, '<<', n)
            sym = '<<'
        elif k == 7:
            n = rng.randrange(70)
            want = fdiv(a, 1 << n)
            r = big(ctx, ctx.call('>>', operator.rshift, x, n), want, a, '>>', n)
            sym = '>>'
        elif k == 8:
            want, sym = -a, 'neg'
            r = big(ctx, ctx.call('neg', operator.neg, x), want, a)
        else:
            want, sym = a, 'bytes'
            r = big(ctx, ctx.call('FromBytes(ToByteArray)', lambda: BigInteger.FromBytes(x.ToByteArray(), signed=True)), want, a)
        if want.bit_length() < 3000:
            pool[rng.randrange(len(pool))] = (r, want)
        ctx.seen(sym, a < 0, b < 0, want.bit_length() // 16)
    for x, a in pool:
        ctx.check('value-unchanged', int(x) == a)


def same(ctx):
    """one object on both sides of every operation, zero among them"""
    rng = ctx.rng
    a = rng.choice([0, 0, 1, -1, 2, -2, 255, gen.bigint(rng, 300), gen.bigint(rng, 2000), gen.bigint(rng, rng.choice([4000, 8192, 20000]))])
    x = rng.choice([ZERO, BigInteger(0), BigInteger.FromBytes(b'')]) if a == 0 else BigInteger(a)
    for sym, (f, oracle) in OPS.items():
        out = ctx.call(sym, f, x, x)
        if a == 0 and sym[0] in '/%':
            ctx.refused('division-by-zero-refused', out)
            ctx.check('division-by-zero-refused', isinstance(out.exc, ZeroDivisionError), a, sym, a, 'gave', repr(out.exc))
        else:
            big(ctx, out, oracle(a, a), a, sym, 'itself')
    for sym, f in CMP.items():
        ctx.check('comparison', ctx.returned('comparison', ctx.call(sym, f, x, x)) is f(a, a), a, sym, 'itself')
    ctx.check('equals', x.Equals(x) is True, a)
    ctx.check('value-unchanged', int(x) == a)
    ctx.seen('same', a.bit_length() // 8, a < 0)


FAMILIES = [Family('same', 3000, 40000, same), Family('pairs', 48000, 120000, pairs), Family('equality', 1500, 30000, equality), Family('chain', 20000, 50000, chain)]

import operator
from vlib.core import Family
from vlib import gen
from neocore.Fixed8 import Fixed8

PROP = 'F01'


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def power(a, b):
    r = 1
    for bit in bin(b)[2:]:
        r = r * r * (a if bit == '1' else 1)
    return r


PLAIN = {'+': (operator.add, lambda a, b: a + b), '-': (operator.sub, lambda a, b: a - b), '*': (operator.mul, lambda a, b: a * b),
         '/': (operator.truediv, tdiv), '//': (operator.floordiv, lambda a, b: a // b), '%': (operator.mod, lambda a, b: a - b * (a // b))}
INPLACE = {'+=': (operator.iadd, '+'), '-=': (operator.isub, '-'), '*=': (operator.imul, '*'), '/=': (operator.itruediv, '/'),
           '//=': (operator.ifloordiv, '//'), '%=': (operator.imod, '%')}
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def amount(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1, -1, 10 ** 8, -10 ** 8, 10 ** 8 - 1, 10 ** 8 + 1, (1 << 53), (1 << 53) + 1, -(1 << 53) - 1, (1 << 63) - 1, -(1 << 63), (1 << 64) + 1])
    if k == 1:
        return rng.randrange(-10, 11) * 10 ** 8 + rng.randrange(-2, 3)
    if k <= 4:
        return gen.sint(rng, 64)
    if k == 5:
        return gen.bigint(rng, 300)
    return rng.randrange(-10 ** 6, 10 ** 6)


def result(ctx, out, want, *what):
    r = ctx.returned('exact-result', out, *what)
    ctx.check('result-is-amount', isinstance(r, Fixed8), r)
    ctx.check('exact-result', type(r.value) is int and r.value == want, *what, 'gave', r.value, 'expected', want)
    return r


def klass(v):
    return (v < 0, v.bit_length() // 8)


def binary(ctx):
    rng = ctx.rng
    a, b = amount(rng), amount(rng)
    k = rng.randrange(6)
    if k == 0:
        b = a
    elif k == 1:
        b = -a
    elif k == 2 and a:
        # exact multiples and their neighbours
        a = a * rng.randrange(-9, 10) + rng.choice([-1, 0, 1])
        b = amount(rng) or 1
        a = b * gen.sint(rng, 40) + rng.choice([-1, 0, 1])
    x, y = Fixed8(a), Fixed8(b)
    for sym, (f, oracle) in PLAIN.items():
        out = ctx.call(sym, f, x, y)
        if b == 0 and sym in ('/', '//', '%'):
            ctx.refused('division-by-zero-refused', out)
        else:
            result(ctx, out, oracle(a, b), sym, a, b)
        ctx.check('operands-unchanged', x.value == a and y.value == b, sym, a, b, x.value, y.value)
    for sym, (f, plain) in INPLACE.items():
        if b == 0 and plain in ('/', '//', '%'):
            continue
        p, q = Fixed8(a), Fixed8(b)
        other_name = p
        r = result(ctx, ctx.call(sym, f, p, q), PLAIN[plain][1](a, b), sym, a, b)
        ctx.check('operands-unchanged', other_name.value == a and q.value == b, sym, 'changed its operand', a, b, other_name.value)
    for sym, f in CMP.items():
        got = ctx.returned('comparison', ctx.call(sym, f, x, y))
        ctx.check('comparison', got is f(a, b), a, sym, b, 'gave', got)
    result(ctx, ctx.call('neg', operator.neg, x), -a, 'neg', a)
    e = rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(0, 12)])
    if k % 5 == 0:              # higher powers of small amounts
        small = rng.choice([0, 1, -1, 2, -2, 3, 10, -7, rng.randrange(-300, 300)])
        high = rng.choice([12, 63, 64, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, rng.randrange(12, 3000)])
        if small in (0, 1, -1):
            high = rng.choice([high, high, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 + 1, 10**30])
        result(ctx, ctx.call('**', operator.pow, Fixed8(small), Fixed8(high)), power(small, high), small, '**', high)
        ctx.seen('high power', small if -4 < small < 4 else 9, high.bit_length())
    ex = Fixed8(e)
    result(ctx, ctx.call('**', operator.pow, x, ex), power(a, e), a, '**', e)
    result(ctx, ctx.call('**=', operator.ipow, Fixed8(a), ex), power(a, e), a, '**=', e)
    ctx.check('operands-unchanged', x.value == a and ex.value == e, 'pow')
    ctx.check('division-laws', b == 0 or ((x // y).value * b + (x % y).value == a and abs((x % y).value) < abs(b)), a, b)
    ctx.seen(klass(a), klass(b), e, k)


def chain(ctx):
    """a running account: many operations, values shared between names"""
    rng = ctx.rng
    pool = [(Fixed8(v), v) for v in (amount(rng) for _ in range(rng.randrange(2, 6)))]
    for step in range(rng.randrange(5, 40)):
        (x, a), (y, b) = rng.choice(pool), rng.choice(pool)
        sym = rng.choice(list(PLAIN) + list(INPLACE))
        f, oracle = (PLAIN[sym] if sym in PLAIN else (INPLACE[sym][0], PLAIN[INPLACE[sym][1]][1]))
        if b == 0 and sym[0] in '/%':
            continue
        want = oracle(a, b)
        r = result(ctx, ctx.call(sym, f, x, y), want, sym, a, b)
        if want.bit_length() < 4000:
            if len(pool) < 8:
                pool.append((r, want))
            else:
                pool[rng.randrange(8)] = (r, want)
        ctx.seen(sym, klass(a)[0], klass(b)[0], klass(want)[1])
    for x, a in pool:
        ctx.check('operands-unchanged', x.value == a, 'a value changed under later operations', x.value, a)
    s = ctx.returned('sorted', ctx.call('sorted', sorted, [x for x, _ in pool]))
    ctx.equal('sorted', [x.value for x in s], sorted(a for _, a in pool))
    tot = ctx.returned('exact-result', ctx.call('sum', sum, [x for x, _ in pool], Fixed8.Zero()))
    ctx.equal('exact-result', tot.value, sum(a for _, a in pool))
    for name, v in (('Zero', 0), ('One', 10 ** 8), ('FD', 10 ** 8), ('Satoshi', 1), ('NegativeSatoshi', -1)):
        ctx.equal('constants', ctx.returned('constants', ctx.call(name, getattr(Fixed8, name))).value, v, name)
    ctx.equal('constants', Fixed8.D, 10 ** 8)


FAMILIES = [Family('binary', 90000, 250000, binary), Family('chain', 25000, 50000, chain)]

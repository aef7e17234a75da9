from decimal import Decimal, localcontext
from vlib.core import Family
from vlib import gen
from neocore.Fixed8 import Fixed8

PROP = 'F03'
D = 10 ** 8


def amount(rng):
    k = rng.randrange(7)
    if k == 0:
        return rng.choice([0, 1, -1, D, -D, D - 1, D + 1, 1 - D, -D - 1, (1 << 63) - 1, -(1 << 63), D // 2, -D // 2, 10 ** 15, 10 ** 16])
    if k == 1:
        return rng.randrange(-1000, 1000) * D + rng.choice([-1, 0, 1])
    if k == 2:
        return rng.randrange(-10 ** 4, 10 ** 4) * 10 ** rng.randrange(0, 8)
    if k == 3:
        return gen.sint(rng, 64) // D * D + rng.choice([-1, 0, 1])
    if k == 4:
        return gen.sint(rng, rng.choice([16, 32, 48, 54]))
    return gen.sint(rng, 64)


def clamp(v):
    return max(-(1 << 63), min((1 << 63) - 1, v))


def rounding(ctx):
    rng = ctx.rng
    for _ in range(5):
        v = clamp(amount(rng))
        x = Fixed8(v)
        lo = v - v % D
        hi = lo if lo == v else lo + D
        for name, want in (('Floor', lo), ('Ceil', hi)):
            r = ctx.returned('rounding', ctx.call(name, getattr(x, name)))
            ctx.check('rounding', isinstance(r, Fixed8) and type(r.value) is int and r.value == want, name, v, 'gave', r, 'expected', want)
        n = ctx.returned('integer-part', ctx.call('ToInt', x.ToInt))
        ctx.check('integer-part', type(n) is int and n == (abs(v) // D if v >= 0 else -(abs(v) // D)), v, 'gave', n)
        ctx.check('value-unchanged', x.value == v, v)
        ctx.seen(v.bit_length(), v < 0, v % D == 0)


def printed(v):
    """the text an inexact float division gives (mechanism of known finding KF2)"""
    return str(v / 100000000)


def one_text(ctx, v):
    x = Fixed8(v)
    plain = ctx.returned('printed', ctx.call('ToString', x.ToString))
    json = ctx.returned('printed', ctx.call('ToNeoJsonString', x.ToNeoJsonString))
    ctx.equal('printed', str(x), plain)
    ctx.check('json-form', json == (plain[:-2] if plain.endswith('.0') else plain), plain, json)
    for name, t in (('ToString', plain), ('ToNeoJsonString', json)):
        with localcontext() as c:
            c.prec = 60
            try:
                den = Decimal(t) * D
            except Exception:
                den = None
        ctx.check('text-observed', True)
        legacy = printed(v)
        with localcontext() as c:
            c.prec = 60
            legacy_exact = Decimal(legacy) * D == v
        if den != v and not legacy_exact and plain == legacy:
            ctx.known('KF2', '%s of %d gave %s' % (name, v, t))
            continue
        ctx.check('text-denotes-amount', den is not None and den == v, name, 'of %d gave' % v, t)
        back = ctx.returned('text-parses-back', ctx.call('TryParse', Fixed8.TryParse, t), t)
        ctx.check('text-parses-back', back is not None and back.value == v, t, back, v)


def texts(ctx):
    rng = ctx.rng
    for _ in range(5):
        v = clamp(amount(rng))
        one_text(ctx, v)
        ctx.seen(v.bit_length(), v < 0, v % D == 0, v % 10 == 0)


def band(ctx):
    """consecutive amounts"""
    rng = ctx.rng
    start = rng.choice([0, -10, D - 10, 10 * D - 10, 10 ** 15, 6 * 10 ** 15, (1 << 52), ctx.index * 100, rng.getrandbits(50)])
    for v in range(start, start + 20):
        one_text(ctx, v)
        one_text(ctx, -v)
    ctx.seen(start)


def large(ctx):
    """beyond the amounts a float division can print (known finding KF2)"""
    rng = ctx.rng
    for v in (4050765991976829501, (1 << 63) - 1, -(1 << 63), 7 * 10 ** 15 + 1 + rng.randrange(10 ** 6), clamp(gen.sint(rng, 64) | (1 << 60))):
        one_text(ctx, v)
        ctx.seen(v.bit_length(), v < 0, rng.random() < .5)


def beyond(ctx):
    """amounts beyond 64 bits whose texts take the exponent form"""
    rng = ctx.rng
    for _ in range(4):
        v = rng.choice([1, -1]) * rng.choice([1, 2, 5, 10, 25, rng.randrange(1, 1000)]) * 10 ** rng.randrange(14, 60)
        one_text(ctx, v)
        ctx.seen(v.bit_length(), v < 0, len(str(v)))


FAMILIES = [Family('rounding', 48000, 200000, rounding), Family('texts', 36000, 150000, texts), Family('band', 9000, 30000, band), Family('large', 200, 4000, large), Family('beyond', 2000, 20000, beyond)]

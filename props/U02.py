import operator
from vlib.core import Family
from vlib import gen
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

PROP = 'U02'
CLS = [(UInt160, 20), (UInt256, 32)]
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def sign(n):
    return (n > 0) - (n < 0)


def judge(ctx, a, b, ia, ib):
    """all comparisons of a and b against the integers they hold"""
    for sym, f in OPS.items():
        got = ctx.returned('comparison', ctx.call(sym, f, a, b))
        ctx.check('comparison', got is f(ia, ib), sym, a, b, 'gave', got)
    c = ctx.returned('three-way', ctx.call('CompareTo', a.CompareTo, b))
    ctx.check('three-way', isinstance(c, int) and sign(c) == sign(ia - ib), a, b, 'gave', c)
    if ia == ib:
        ctx.check('equal-hash', hash(a) == hash(b), a, b)
        ctx.check('one-dictionary-key', len({a: 1, b: 2}) == 1 and {a: 7}[b] == 7 and len({a, b}) == 1 and b in {a}, a, b)
    else:
        ctx.check('two-dictionary-keys', len({a: 1, b: 2}) == 2 and b not in {a: 1} and {a: 1, b: 2}[a] == 1, a, b)


def le(b):
    return sum(x << (8 * i) for i, x in enumerate(b))


def make(ctx, cls, b):
    k = ctx.rng.randrange(3)
    if k == 0:
        return cls(data=b)
    if k == 1:
        return cls(data=bytearray(b))
    return cls.ParseString(b[::-1].hex())


def rearranged(rng, a):
    """the bytes of a, a part of them in another order or altered alike"""
    w = len(a)
    n = rng.choice([2, 4, 8, 16, w // 2, rng.randrange(2, w + 1)])
    i = rng.choice([0, 0, w - n, rng.randrange(w - n + 1)])
    part = a[i:i + n]
    k = rng.randrange(8)
    if k < 2:
        part = part[::-1]
    elif k == 2:
        part = part[1:] + part[:1]
    elif k == 3:
        part = part[n // 2:] + part[:n // 2]
    elif k == 4:
        part = bytes(255 - x for x in part)
    elif k == 5:
        part = bytes(n)
    elif k == 6:
        part = bytes(x ^ 0x80 for x in part)
    else:
        part = bytes(sorted(part))
    return a[:i] + part + a[i + n:]


def pairs(ctx):
    rng = ctx.rng
    for cls, w in CLS:
        a = gen.bytestr(rng, w)
        k = rng.randrange(7)
        if k == 0:
            b = gen.bytestr(rng, w)
        elif k >= 5:
            b = rearranged(rng, a)
        elif k == 1:
            b = a
        elif k == 2:
            b = a[::-1]
        elif k == 3:
            # opposite orders at two positions
            b = bytearray(a)
            i, j = rng.randrange(w), rng.randrange(w)
            b[i], b[j] = (b[i] + 1) % 256, (b[j] - 1) % 256
            b = bytes(b)
        else:
            b = bytearray(a)
            b[rng.randrange(w)] ^= 1 << rng.randrange(8)
            b = bytes(b)
        x, y = make(ctx, cls, a), make(ctx, cls, b)
        judge(ctx, x, y, le(a), le(b))
        judge(ctx, y, x, le(b), le(a))
        judge(ctx, x, x, le(a), le(a))
        d = [i for i in range(w) if a[i] != b[i]]
        ctx.seen(w, k, tuple(d[-2:]), sign(le(a) - le(b)))


def one_byte(ctx):
    """pairs that differ in exactly one byte, at every position"""
    rng = ctx.rng
    for cls, w in CLS:
        pos = ctx.index % w
        a = bytearray(gen.bytestr(rng, w))
        b = bytearray(a)
        a[pos] = rng.choice([0, 1, 0x7f, 0x80, 0xfe, rng.randrange(255)])
        b[pos] = rng.choice([x for x in (a[pos] + 1, 255, rng.randrange(a[pos] + 1, 256)) if a[pos] < x < 256])
        a, b = bytes(a), bytes(b)
        x, y = make(ctx, cls, a), make(ctx, cls, b)
        judge(ctx, x, y, le(a), le(b))
        judge(ctx, y, x, le(b), le(a))
        ctx.seen(w, pos, a[pos] >> 4, b[pos] >> 4)


def triples(ctx):
    """order laws over several values, sorting, dictionaries"""
    rng = ctx.rng
    cls, w = rng.choice(CLS)
    base = gen.bytestr(rng, w)
    vals = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.randrange(3)
        vals.append(base if k == 0 else gen.mutate_bytes(rng, base)[:w].ljust(w, b'\0') if k == 1 else gen.bytestr(rng, w))
    objs = [make(ctx, cls, b) for b in vals]
    s = ctx.returned('sorted', ctx.call('sorted', sorted, objs))
    ctx.equal('sorted', [le(bytes(o.Data)) for o in s], sorted(le(b) for b in vals))
    s = ctx.returned('sorted', ctx.call('sorted(reverse)', lambda: sorted(objs, reverse=True)))
    ctx.equal('sorted', [le(bytes(o.Data)) for o in s], sorted((le(b) for b in vals), reverse=True))
    ctx.equal('sorted', le(bytes(ctx.returned('sorted', ctx.call('max', max, objs)).Data)), max(le(b) for b in vals))
    ctx.equal('sorted', le(bytes(ctx.returned('sorted', ctx.call('min', min, objs)).Data)), min(le(b) for b in vals))
    d = {}
    for i, o in enumerate(objs):
        d[o] = i
    ctx.equal('dictionary', sorted((bytes(k.Data), v) for k, v in d.items()), sorted({b: i for i, b in enumerate(vals)}.items()))
    for b in vals:
        ctx.check('dictionary', d[make(ctx, cls, b)] == max(i for i, x in enumerate(vals) if x == b), b)
    for i in range(min(4, len(objs))):
        for j in range(min(4, len(objs))):
            judge(ctx, objs[i], objs[j], le(vals[i]), le(vals[j]))
    ctx.seen(w, len(vals), len(set(vals)))


class Other:
    def __init__(self, d):
        self.Data = d

    def ToArray(self):
        return self.Data


def widths(ctx):
    """values of different widths and other types"""
    rng = ctx.rng
    a = gen.bytestr(rng, 20)
    k = rng.randrange(4)
    b = a + gen.bytestr(rng, 12) if k == 0 else gen.bytestr(rng, 12) + a if k == 1 else a + bytes(12) if k == 2 else bytes(12) + a
    x, y = UInt160(data=a), UInt256(data=b)
    for p, q in ((x, y), (y, x), (UInt160(), UInt256()), (UInt256(), UInt160())):
        ctx.check('widths-never-equal', ctx.returned('widths-never-equal', ctx.call('==', operator.eq, p, q)) is False, p, q)
        ctx.check('widths-never-equal', ctx.returned('widths-never-equal', ctx.call('!=', operator.ne, p, q)) is True, p, q)
        ctx.check('widths-never-equal', len({p: 1, q: 2}) == 2, p, q)
        for sym in ('<', '<=', '>', '>='):
            ctx.refused('widths-not-ordered', ctx.call(sym, OPS[sym], p, q), p, q)
        ctx.refused('widths-not-ordered', ctx.call('CompareTo', p.CompareTo, q), p, q)
    for v in (x, y):
        raw = bytes(v.Data)
        for o in (None, 0, le(raw), raw, bytearray(raw), raw.hex(), v.ToString(), v.To0xString(), [1], list(raw), 1.5, object(), True, Other(bytearray(raw))):
            ctx.check('other-types-not-equal', ctx.returned('other-types-not-equal', ctx.call('==', operator.eq, v, o)) is False, v, o)
            ctx.check('other-types-not-equal', ctx.returned('other-types-not-equal', ctx.call('!=', operator.ne, v, o)) is True, v, o)
            if rng.random() < .3:
                for sym in ('<', '<=', '>', '>='):
                    ctx.refused('other-types-not-ordered', ctx.call(sym, OPS[sym], v, o), v, o)
                ctx.refused('other-types-not-ordered', ctx.call('CompareTo', v.CompareTo, o), v, o)
    ctx.seen(k, a[0] >> 3, b[-1] >> 3)


FAMILIES = [Family('pairs', 25000, 120000, pairs), Family('one-byte', 6400, 96000, one_byte), Family('triples', 12500, 50000, triples),
            Family('widths', 4000, 10000, widths)]

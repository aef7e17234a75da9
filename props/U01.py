from vlib.core import Family
from vlib import gen
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

PROP = 'U01'
CLS = [(UInt160, 20), (UInt256, 32)]


def forms(ctx, cls, v, b, what):
    """every text and byte form of v denotes the bytes b"""
    n = cls.__name__
    rev = b[::-1].hex()
    ctx.equal('text-form', ctx.returned('text-form', ctx.call(n + '.ToString', v.ToString)), rev, what)
    ctx.equal('text-form', ctx.returned('text-form', ctx.call('str(%s)' % n, str, v)), rev, what)
    ctx.equal('text-form', ctx.returned('text-form', ctx.call(n + '.ToString2', v.ToString2)), b.hex(), what)
    ctx.equal('text-form', ctx.returned('text-form', ctx.call(n + '.To0xString', v.To0xString)), '0x' + rev, what)
    ctx.equal('text-form', ctx.returned('text-form', ctx.call(n + '.ToBytes', v.ToBytes)), rev.encode(), what)
    ctx.equal('byte-form', bytes(ctx.returned('byte-form', ctx.call(n + '.ToArray', v.ToArray))), b, what)
    ctx.equal('byte-form', v.Size, len(b), what)


def mixed(rng, s):
    return ''.join(c.upper() if rng.random() < .5 else c for c in s)


def roundtrip(ctx):
    rng = ctx.rng
    for cls, w in CLS:
        for _ in range(3):
            b = gen.bytestr(rng, w)
            v = ctx.returned('constructed', ctx.call(cls.__name__, cls, data=b if rng.random() < .5 else bytearray(b)))
            forms(ctx, cls, v, b, 'built from bytes')
            s = b[::-1].hex()
            texts = [s, '0x' + s, s.upper(), '0x' + s.upper(), mixed(rng, s), v.ToString(), v.To0xString(), v.ToBytes().decode()]
            for t in texts:
                p = ctx.returned('parsed', ctx.call(cls.__name__ + '.ParseString', cls.ParseString, t), t)
                ctx.check('parsed-equal', type(p) is cls and p == v and bytes(p.Data) == b, cls.__name__, t, p)
            p = cls.ParseString(rng.choice(texts))
            forms(ctx, cls, p, b, 'parsed')
            forms(ctx, cls, v, b, 'after use')
            ctx.seen(w, b[0] >> 2, b[-1] >> 2, b.count(0))
        z = ctx.returned('constructed', ctx.call(cls.__name__, cls))
        forms(ctx, cls, z, bytes(w), 'default')


def bad_text(ctx):
    rng = ctx.rng
    for cls, w in CLS:
        name = cls.__name__ + '.ParseString'
        good = gen.bytestr(rng, w).hex()
        bad = []
        for n in {0, 1, 2, 2 * w - 1, 2 * w - 2, 2 * w + 1, 2 * w + 2, 2 * w + 4, w, 40 if w == 32 else 64, rng.randrange(200)}:
            if n != 2 * w:
                t = (good * 8)[:n]
                bad.append(t if not t.startswith('0x') else 'a' + t[1:])
                bad.append('0x' + t)
        t = gen.confused(rng, good)
        if t and not set(t) <= set('0123456789abcdefABCDEF'):
            bad.append(rng.choice(['', '0x']) + t)
        for c in rng.sample('gGzZxX -_+.:\0\n\tÿ０１é٣', 8):
            i = rng.randrange(2 * w)
            t = good[:i] + c + good[i + 1:]
            bad += [t, '0x' + t]
        # blanks that a lenient hex parser skips
        i = 2 * rng.randrange(w)
        bad += [good[:i] + '  ' + good[i + 2:], good[:i] + ' ' + good[i:], ' ' + good, good + ' ', good + '\n', '0x ' + good, '\t' + good[1:] + '\n',
                '0X' + good, '0x0x' + good, '0x' + good[2:] + '', 'x' + good[1:], '0x' + good[:-2] + '0x', '-' + good[1:], '0b' + good, '#' + good[1:]]
        bad += [gen.decorated(rng, rng.choice([good, '0x' + good])) for _ in range(6)]
        for t in bad:
            if len(t) == 2 * w + 2 and t[:2] == '0x' and all(c in '0123456789abcdefABCDEF' for c in t[2:]):
                continue
            if len(t) == 2 * w and all(c in '0123456789abcdefABCDEF' for c in t):
                continue
            ctx.refused('bad-text-refused', ctx.call(name, cls.ParseString, t), repr(t))
            ctx.seen(w, len(t), t[:2] == '0x')


def bad_data(ctx):
    rng = ctx.rng
    for cls, w in CLS:
        for n in {0, 1, w - 1, w + 1, w - 2, w + 2, 2 * w, w // 2, 20 if w == 32 else 32, rng.randrange(0, 100)}:
            if n == w:
                continue
            b = gen.bytestr(rng, n)
            for d in (b, bytearray(b)):
                ctx.refused('bad-data-refused', ctx.call(cls.__name__, cls, data=d), '%d bytes' % n)
            ctx.seen(w, n)
        for d in ('a' * w, [0] * w, (0,) * w, 'a' * (2 * w)):
            ctx.refused('bad-data-refused', ctx.call(cls.__name__, cls, data=d), repr(type(d)))


def positions(ctx):
    """every byte value at every position"""
    i = ctx.index
    for cls, w in CLS:
        pos, val = i % w, (i * 7 + i // w) % 256
        b = bytearray(w)
        b[pos] = val
        b = bytes(b)
        v = ctx.returned('constructed', ctx.call(cls.__name__, cls, data=b))
        forms(ctx, cls, v, b, 'one byte set')
        p = ctx.returned('parsed', ctx.call(cls.__name__ + '.ParseString', cls.ParseString, v.ToString()))
        ctx.check('parsed-equal', p == v and bytes(p.Data) == b, b)
        ctx.seen(w, pos, val)


FAMILIES = [Family('roundtrip', 20000, 120000, roundtrip), Family('bad-text', 6000, 30000, bad_text),
            Family('bad-data', 2400, 8000, bad_data), Family('positions', 32 * 256, 32 * 256, positions)]

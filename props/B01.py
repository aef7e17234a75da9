from vlib.core import Family
from vlib import gen
from neocore.BigInteger import BigInteger

PROP = 'B01'


def unsigned(b):
    return sum(x << (8 * i) for i, x in enumerate(b))


def signed(b):
    v = unsigned(b)
    return v - (1 << (8 * len(b))) if b and b[-1] & 0x80 else v


def encode(ctx, n):
    x = BigInteger(n)
    for kw in ({}, {'signed': True}):
        b = ctx.returned('encoded', ctx.call('ToByteArray', x.ToByteArray, **kw), n)
        ctx.check('encoded', isinstance(b, (bytes, bytearray)), b)
        b = bytes(b)
        ctx.check('reads-back', signed(b) == n, n, 'encoded as', b)
        if n == 0:
            want = 1
        elif n > 0:
            want = n.bit_length() // 8 + 1
        else:
            want = (n.bit_length() + 7) // 8 + 1
        ctx.check('length', len(b) == want and (n != 0 or b == b'\0'), n, 'encoded as', b, 'expected %d bytes' % want)
        r = ctx.returned('decoded', ctx.call('FromBytes', BigInteger.FromBytes, b, signed=True))
        ctx.check('decoded', type(r) is BigInteger and r == n and int(r) == n, n, r)
    if n >= 0:
        b = bytes(ctx.returned('encoded', ctx.call('ToByteArray', x.ToByteArray, signed=False), n))
        ctx.check('unsigned-form', unsigned(b) == n and len(b) == max(1, (n.bit_length() + 7) // 8), n, 'encoded as', b)
        for kw in ({}, {'signed': False}):
            r = ctx.returned('decoded', ctx.call('FromBytes', BigInteger.FromBytes, b, **kw))
            ctx.check('decoded', type(r) is BigInteger and r == n, n, r)
    ctx.check('value-unchanged', int(x) == n, n)


def values(ctx):
    for _ in range(5):
        n = gen.bigint(ctx.rng, 700)
        encode(ctx, n)
        ctx.seen(n < 0, n.bit_length())


def edges(ctx):
    """all values around every power of 256 and of 2"""
    k = ctx.index
    for base in (1 << k, 0xff << max(0, k - 8), 0x7f << max(0, k - 7), 0x80 << max(0, k - 7)):
        for d in (-2, -1, 0, 1, 2):
            encode(ctx, base + d)
            encode(ctx, -base + d)
    ctx.seen(k)


def small(ctx):
    for n in range(ctx.index * 512 - 70000, ctx.index * 512 - 70000 + 512):
        encode(ctx, n)
    ctx.seen(ctx.index)


def from_bytes(ctx):
    rng = ctx.rng
    for _ in range(8):
        b = gen.bytestr(rng, rng.choice([0, 1, 2, 3, 4, 8, 9, 20, 32, 33, 64, rng.randrange(200), rng.choice([127, 128, 129, 255, 256, 257, 512, 1000, rng.randrange(2000)])]))
        if b and rng.random() < .4:
            b = b[:-1] + rng.choice([b'\0', b'\x80', b'\xff', b'\x7f', b'\1'])
        for data in (b, bytearray(b)):
            r = ctx.returned('decoded', ctx.call('FromBytes', BigInteger.FromBytes, data))
            ctx.check('decoded', type(r) is BigInteger and int(r) == unsigned(b), b, 'unsigned gave', r)
            r = ctx.returned('decoded', ctx.call('FromBytes', BigInteger.FromBytes, data, signed=True))
            ctx.check('decoded', type(r) is BigInteger and int(r) == signed(b), b, 'signed gave', r)
            r = ctx.returned('decoded', ctx.call('FromBytes', BigInteger.FromBytes, data, False))
            ctx.check('decoded', type(r) is BigInteger and int(r) == unsigned(b), b, 'unsigned gave', r)
        ctx.seen(len(b), b[-1:] >= b'\x80')


def huge(ctx):
    """numbers of thousands of bits"""
    rng = ctx.rng
    bits = rng.choice([1024, 2048, 4096, 8192, 16384, 32768, 65536, rng.randrange(1000, 20000), 8 * rng.randrange(130, 3000)])
    for n in ((1 << bits) + rng.randrange(-2, 3), (1 << bits - 1) + rng.randrange(-2, 3), rng.getrandbits(bits), 0xff << (bits - 8), 1 << (bits - 1)):
        encode(ctx, n)
        encode(ctx, -n)
    ctx.seen(bits)


FAMILIES = [Family('huge', 600, 10000, huge), Family('values', 12000, 150000, values), Family('edges', 1100, 4200, edges), Family('small', 274, 274, small), Family('from-bytes', 6000, 60000, from_bytes)]

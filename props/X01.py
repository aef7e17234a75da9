from vlib.core import Family
from vlib import gen
from neocore.Cryptography import Helper
from neocore.IO import BinaryWriter as BW

PROP = 'X01'


def le(n):
    out = []
    while n:
        out.append(n % 256)
        n //= 256
    return bytes(out) or b'\0'


def base256(ctx):
    rng = ctx.rng
    for _ in range(5):
        n = abs(gen.bigint(rng, 600 if rng.random() < .95 else rng.choice([2048, 4096, 9000])))
        w = rng.choice([None, 0, 1, 2, 8, 20, 32, 33, 64, len(le(n)), len(le(n)) + 1, len(le(n)) - 1, rng.randrange(100), rng.choice([127, 128, 255, 256, 257, 258, 288, 300, 511, 512, 513, 1000, 1025, 5000, 65537])])
        args = (n,) if w is None else (n, w)
        got = ctx.returned('base256', ctx.call('base256_encode', Helper.base256_encode, *args) if rng.random() < .7 or w is None
                           else ctx.call('base256_encode', Helper.base256_encode, n, minwidth=w))
        ctx.equal('base256', bytes(got), le(n).ljust(w or 0, b'\0'), n, w)
        ctx.takes(got)
        if isinstance(got, bytearray):
            got[:] = b'\x5a' * len(got)             # the result is the caller's: filling it with other bytes changes no later result
        again = ctx.returned('base256', ctx.call('base256_encode', Helper.base256_encode, *args))
        ctx.equal('base256', bytes(again), le(n).ljust(w or 0, b'\0'), n, w, 'after the first result was overwritten')
        neg = -(n or 1)
        ctx.refused('negative-refused', ctx.call('base256_encode', Helper.base256_encode, neg, *(args[1:])), neg)
        ctx.seen(n.bit_length(), w)


def xor(ctx):
    rng = ctx.rng
    n = gen.length(rng)
    a, b = gen.bytestr(rng, n), gen.bytestr(rng, n)
    if rng.random() < .1:
        b = a
    want = bytes([(x | y) - (x & y) for x, y in zip(a, b)])
    got = ctx.returned('xor', ctx.call('xor_bytes', Helper.xor_bytes, a, b))
    ctx.equal('xor', got, want)
    ctx.equal('xor-undone', ctx.returned('xor', ctx.call('xor_bytes', Helper.xor_bytes, got, b)), a)
    ctx.equal('xor', ctx.returned('xor', ctx.call('xor_bytes', Helper.xor_bytes, b, a)), want)
    m = rng.choice([0, n + 1, n + 2, max(0, n - 1), n // 2, n * 2 + 1, rng.randrange(50)])
    if m != n:
        c = gen.bytestr(rng, m)
        ctx.refused('unequal-refused', ctx.call('xor_bytes', Helper.xor_bytes, a, c), '%d and %d bytes' % (n, m))
        ctx.refused('unequal-refused', ctx.call('xor_bytes', Helper.xor_bytes, c, a), '%d and %d bytes' % (m, n))
    ctx.seen(n, m > n)


def swap(ctx):
    rng = ctx.rng
    for n in (-1, 1 << 32, rng.choice([-gen.uint(rng, 40) - 1, (1 << 32) + gen.uint(rng, 40), 1 << rng.randrange(32, 70), -(1 << rng.randrange(0, 70)), (1 << 40) - 1])):
        ctx.refused('unfit-refused', ctx.call('swap32', BW.swap32, n), n)
    for _ in range(10):
        n = gen.uint(rng, 32)
        b = [n >> s & 255 for s in (0, 8, 16, 24)]
        want = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
        got = ctx.returned('swap32', ctx.call('swap32', BW.swap32, n))
        ctx.check('swap32', type(got) is int and got == want, hex(n), got)
        ctx.equal('swap32-undone', ctx.returned('swap32', ctx.call('swap32', BW.swap32, got)), n)
        ctx.seen('swap', n.bit_length(), n & 255)


def digits(n, w):
    return ''.join('1' if n >> i & 1 else '0' for i in range(w - 1, -1, -1))


def binary(ctx):
    rng = ctx.rng
    for _ in range(10):
        n = gen.uint(rng, rng.choice([8, 19, 20, 21, 31, 32, 33, 40, 64]))
        ctx.equal('binary-text', ctx.returned('binary-text', ctx.call('convert_to_uint160', BW.convert_to_uint160, n)), digits(n, 20), n)
        ctx.equal('binary-text', ctx.returned('binary-text', ctx.call('convert_to_uint256', BW.convert_to_uint256, n)), digits(n, 32), n)
        ctx.seen('bin', n.bit_length(), n & 7)


FAMILIES = [Family('base256', 24000, 100000, base256), Family('xor', 30000, 100000, xor), Family('swap', 9000, 30000, swap), Family('binary', 9000, 30000, binary)]

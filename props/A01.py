import contextlib
import io
from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography import Helper
from neocore.UInt160 import UInt160
from neocore.Utils import isValidPublicAddress
from neocore.bin import cli

PROP = 'A01'


def quietly(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def val(ctx, name, fn, *a, **kw):
    return ctx.returned('conversion-given', ctx.call(name, fn, *a, **kw))


def one(ctx, h):
    rng = ctx.rng
    want = oracle.address(h)
    routes = [
        ('scripthash_to_address(bytes)', Helper.scripthash_to_address, h),
        ('scripthash_to_address(bytearray)', Helper.scripthash_to_address, bytearray(h)),
        ('Crypto.ToAddress', Crypto.ToAddress, UInt160(data=bytearray(h))),
        ('Crypto.ToAddress(bytes)', Crypto.ToAddress, UInt160(data=h)),
        ('Crypto.ToAddress(parsed)', Crypto.ToAddress, UInt160.ParseString(h[::-1].hex())),
        ('cli.scripthash_to_address(0x)', lambda t: quietly(cli.scripthash_to_address, t), '0x' + h[::-1].hex()),
        ('cli.scripthash_to_address(0xUPPER)', lambda t: quietly(cli.scripthash_to_address, t), '0x' + h[::-1].hex().upper()),
        ('cli.scripthash_to_address(little)', lambda t: quietly(cli.scripthash_to_address, t), h.hex()),
        ('cli.scripthash_to_address(LITTLE)', lambda t: quietly(cli.scripthash_to_address, t), h.hex().upper()),
    ]
    rng.shuffle(routes)
    for name, fn, arg in routes:
        got = val(ctx, name, fn, arg)
        ctx.check('address', isinstance(got, str) and got == want, 'hash', h, 'gave', got, 'standard address', want)
    ctx.check('address-shape', len(got) == 34 and got[0] == 'A', got)
    back = val(ctx, 'cli.address_to_scripthash', cli.address_to_scripthash, got)
    ctx.check('back-to-hash', bytes(back) == h, 'address', got, 'gave', back, 'expected', h)
    ok = val(ctx, 'isValidPublicAddress', isValidPublicAddress, got)
    ctx.check('reported-valid', ok is True, got, ok)
    ctx.equal('address', val(ctx, 'Crypto.ToAddress', Crypto.ToAddress, UInt160(data=back)), want)


def random_hashes(ctx):
    for _ in range(4):
        h = gen.special_bytes(ctx.rng, 20) if ctx.rng.random() < .7 else ctx.rng.randbytes(20)
        one(ctx, h)
        ctx.seen(h[0], h[19], len(h.lstrip(b'\0')), len(h.rstrip(b'\0')))


def structured(ctx):
    """every byte value at every position, on zero, ones and patterned backgrounds; zero runs"""
    i = ctx.index
    pos, rest = i % 20, i // 20
    bg = [bytes(20), b'\xff' * 20, bytes(range(20)), b'a' * 20][rest % 4]
    for v in range((rest // 4) % 8, 256, 8):
        h = bytearray(bg)
        h[pos] = v
        one(ctx, bytes(h))
        ctx.seen(pos, rest % 4, v)


def from_scripts(ctx):
    """script -> hash -> address, and hashes next to each other never share an address"""
    rng = ctx.rng
    m = gen.bytestr(rng)
    h = oracle.hash160(m)
    u = val(ctx, 'Crypto.ToScriptHash', Crypto.ToScriptHash, m, unhex=False)
    ctx.equal('address', val(ctx, 'Crypto.ToAddress', Crypto.ToAddress, u), oracle.address(h))
    n = int.from_bytes(h, rng.choice(['big', 'little']))
    seen = {}
    for d in range(4):
        g = ((n + d) % (1 << 160)).to_bytes(20, 'big')
        a = val(ctx, 'scripthash_to_address', Helper.scripthash_to_address, g)
        ctx.check('distinct-addresses', a not in seen, 'hashes', seen.get(a), g, 'both give', a)
        seen[a] = g
        ctx.equal('back-to-hash', bytes(val(ctx, 'cli.address_to_scripthash', cli.address_to_scripthash, a)), g)
    ctx.seen(h[0], len(m))


MINED = keys.mined('address')


def mined(ctx):
    """hashes whose address has a checksum of unusual bytes"""
    mark, h = MINED[ctx.index % len(MINED)]
    one(ctx, h)
    ctx.seen(mark)


FAMILIES = [Family('mined', len(MINED), len(MINED), mined), Family('random_hashes', 7500, 80000, random_hashes), Family('structured', 640, 640, structured),
            Family('from_scripts', 4500, 40000, from_scripts)]

from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Utils import isValidPublicAddress
from neocore.bin import cli

PROP = 'A02'
B58 = oracle.B58
NEAR = B58 + '0OIl'


def judge(ctx, t, why):
    want = oracle.address_decode(t)
    out = ctx.call('isValidPublicAddress', isValidPublicAddress, t)
    got = ctx.returned('never-fails', out, why, repr(t))
    ctx.check('decision', isinstance(got, bool) and got == (want is not None), 'text', repr(t), why, 'gave', got, 'expected', want is not None)
    out = ctx.call('cli.address_to_scripthash', cli.address_to_scripthash, t)
    if want is not None:
        got = ctx.returned('cli-accepts', out, why, repr(t))
        ctx.equal('cli-hash', bytes(got), want, repr(t))
    elif t.rstrip() != t and oracle.address_decode(t.rstrip()) is not None:
        pass                        # white space after an address: the base58 library strips it
    else:
        ctx.refused('cli-refuses', out, why, repr(t), types=cli.ConversionError)


def versions(ctx):
    """every version byte; lengths around 20; checksum right"""
    rng = ctx.rng
    v = ctx.index % 256
    h = gen.special_bytes(rng, 20)
    judge(ctx, oracle.b58check(bytes([v]) + h), 'version %d' % v)
    ctx.seen('version', v)
    n = rng.choice([0, 1, 10, 18, 19, 20, 21, 22, 23, 24, 25, 32, 33, 40])
    judge(ctx, oracle.b58check(b'\x17' + rng.randbytes(n)), 'length %d' % n)
    ctx.seen('length', n)
    p = rng.choice([b'\x80', b'\x17', b'\x00', b'\x05', b'\x17\x17', b'\x01\x42\xe0', b''])
    judge(ctx, oracle.b58check(p + rng.randbytes(rng.randrange(16, 24))), 'prefix')


def thirty_four(ctx):
    """34-character A... texts with a right checksum but another version or length"""
    rng = ctx.rng
    for _ in range(4):
        # addresses of the lowest and highest hashes of other versions, and 34-character texts of other payload lengths
        v = rng.choice([0x16, 0x17, 0x17, 0x18, 0x15, 0x19])
        h = rng.choice([bytes(20), b'\xff' * 20, bytes([rng.choice([0, 1, 2, 254, 255])]) + rng.randbytes(19), rng.randbytes(20)])
        t = oracle.b58check(bytes([v]) + h)
        judge(ctx, t, 'version near')
        ctx.seen(v, t[:2], len(t))
    # random text that decodes to 25 bytes: starts with A, wrong checksum, version varies
    t = 'A' + ''.join(rng.choice(B58) for _ in range(33))
    judge(ctx, t, 'random A text')
    # leading-1 texts: longer payload with leading zeros
    z = rng.randrange(1, 4)
    judge(ctx, '1' * z + oracle.address(rng.randbytes(20)), 'leading ones')
    judge(ctx, oracle.b58check(bytes(z) + b'\x17' + rng.randbytes(20 - z)), 'zeros before version')


def damaged(ctx):
    """mistyped, shortened, lengthened addresses"""
    rng = ctx.rng
    h = gen.special_bytes(rng, 20)
    a = oracle.address(h)
    judge(ctx, a, 'intact')
    for _ in range(6):
        t = a
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t = gen.mutate_text(rng, t, rng.choice([B58, NEAR, ' \t\n-_0OIl+/=é\x00', 'Aa1z']))
        judge(ctx, t, 'damaged')
        ctx.seen(len(t), t in (a,), sum(x != y for x, y in zip(t, a)))
    judge(ctx, a.lower(), 'lower')
    judge(ctx, a.upper(), 'upper')
    judge(ctx, a + a, 'twice')
    judge(ctx, a[::-1], 'reversed')
    for w in (' ', '\n', '\t', '\r\n', '\0', rng.choice(gen.BLANKS) * rng.randrange(1, 4)):
        judge(ctx, w + a, 'blank before')
        judge(ctx, a + w, 'blank after')
        judge(ctx, a[:-1] + w, 'blank for the last character')
        judge(ctx, w + a[1:], 'blank for the first character')
        judge(ctx, w + a + w, 'blanks around')
    for _ in range(6):
        judge(ctx, gen.decorated(rng, a), 'decorated')
    i = rng.randrange(1, 34)
    judge(ctx, a[:i] + rng.choice(gen.BLANKS) + a[i:], 'blank inside')


def every_edit(ctx):
    """every single-character replacement, deletion, doubling and swap of one address"""
    rng = ctx.rng
    a = oracle.address(gen.special_bytes(rng, 20))
    i = ctx.index % 34
    for c in B58 + '0OIl .':
        judge(ctx, a[:i] + c + a[i + 1:], 'replaced')
        judge(ctx, a[:i] + c + a[i:], 'inserted')
    judge(ctx, a[:i] + a[i + 1:], 'deleted')
    judge(ctx, a[:i], 'cut')
    if i < 33:
        judge(ctx, a[:i] + a[i + 1] + a[i] + a[i + 2:], 'swapped')
    ctx.seen(i, a[i])


def checksums(ctx):
    """checksum of another kind, with one bit wrong, of another payload, reversed, partly right"""
    rng = ctx.rng
    p = b'\x17' + gen.special_bytes(rng, 20)
    c = oracle.hash256(p)
    k = rng.randrange(32)
    bit = bytearray(c[:4])
    bit[k // 8] ^= 1 << (k % 8)
    part = rng.randrange(4)
    for name, x in (('one bit', bytes(bit)), ('single sha', oracle.sha256(p)[:4]), ('last four', c[-4:]), ('reversed', c[:4][::-1]),
                    ('zero', bytes(4)), ('of hash', oracle.hash256(p[1:])[:4]), ('partly right', c[:part] + rng.randbytes(4 - part)), ('right', c[:4]),
                    ('three bytes', c[:3]), ('five bytes', c[:5]), ('none', b'')):
        judge(ctx, oracle.b58encode(p + x), name)
        ctx.seen(name, k, part)
    q = bytearray(p)
    q[rng.randrange(1, 21)] ^= 1 << rng.randrange(8)
    judge(ctx, oracle.b58encode(bytes(q) + c[:4]), 'payload bit')


FOREIGN = ['', 'A', '1', 'AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA', '1' * 34, 'A' + '1' * 33, 'z' * 34, '0' * 34, '1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa',
           '3J98t1WpEZ73CNmQviecrnyiWrnqRhWNLy', 'bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdq', 'Ae' * 17, '0x' + 'ab' * 20, 'ab' * 20,
           'KxDgvEKzgSBPPfuVfw67oPQBSjidEiqTHURKSDL1R7yGaGYAeYnr', '6PYVPVe1fQznphjbUxXP9KZJqPMVnVwCx5s5pr5axRJ8uHkMtZg97eT5kL', 'NEO', 'A' * 1000, 'é' * 34,
           'A' + 'é' * 33, 'А' + 'x' * 33, '\x00' * 34, 'A' + '\x00' * 33, ' ' * 34, 'A' + ' ' * 33, '\n', '\ud800' + 'A' * 33, 'A' + '\ud800' * 33, '😀' * 34, 'A' + '٣' * 33]


def foreign(ctx):
    rng = ctx.rng
    t = FOREIGN[ctx.index] if ctx.index < len(FOREIGN) else gen.text(rng)
    judge(ctx, t, 'foreign')
    ctx.seen(len(t), t[:1])
    if ctx.index >= len(FOREIGN):
        t = ('A' + gen.text(rng, 33))
        judge(ctx, t, 'foreign of the right length')
        t = oracle.address(rng.randbytes(20))
        i = rng.randrange(35)
        judge(ctx, t[:i] + gen.text(rng, rng.randrange(1, 4)) + t[i:], 'text inside')


MINED = keys.mined('address')


def mined(ctx):
    """addresses with a checksum of unusual bytes, and the same with one of those bytes altered"""
    mark, h = MINED[ctx.index % len(MINED)]
    judge(ctx, oracle.address(h), mark)
    p = b'\x17' + h
    c = oracle.hash256(p)[:4]
    for i in range(4):
        for v in (0, 255, c[i] ^ 1, c[i] ^ 0x80):
            judge(ctx, oracle.b58encode(p + c[:i] + bytes([v]) + c[i + 1:]), 'checksum byte')
    judge(ctx, oracle.b58encode(p + c[:-1]), 'three bytes')
    ctx.seen(mark)


FAMILIES = [Family('mined', len(MINED), len(MINED), mined), Family('versions', 2560, 25600, versions), Family('thirty_four', 10000, 60000, thirty_four), Family('damaged', 10000, 80000, damaged),
            Family('every_edit', 340, 3400, every_edit), Family('checksums', 10000, 60000, checksums), Family('foreign', 10000, 60000, foreign)]

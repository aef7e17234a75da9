from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.KeyPair import KeyPair

PROP = 'K02'
B58 = oracle.B58


def judge(ctx, t, why):
    """import a text; the reference decides"""
    want = oracle.wif_decode(t) if len(t) == 52 else None
    out = ctx.call('PrivateKeyFromWIF', KeyPair.PrivateKeyFromWIF, t)
    if want is not None:
        got = ctx.returned('import-accepted', out, why, repr(t))
        ctx.check('import-exact', bytes(got) == want and len(got) == 32, why, repr(t), got)
    else:
        ctx.refused('damage-refused', out, why, repr(t), types=ValueError)
    return want


def roundtrip(ctx):
    rng = ctx.rng
    kind = None
    if ctx.index < 240:
        ks = keys.mined_keys()
        kind, k = ks[ctx.index % len(ks)]
    elif ctx.index < 240 + len(keys.EDGE):
        k = oracle.b32(keys.EDGE[ctx.index - 240])
    else:
        k = keys.key(rng)
    pt = oracle.pub_of(k)
    form = rng.choice(['32', '32', '96', '104'])
    data = k if form == '32' else b''.join(map(oracle.b32, pt)) + k
    if form == '104':
        data = rng.randbytes(8) + data
    kp = ctx.returned('key-accepted', ctx.call('KeyPair(%s)' % form, KeyPair, data))
    w = ctx.returned('export-given', ctx.call('Export', kp.Export))
    ctx.check('export-standard', isinstance(w, str) and w == oracle.wif(k) and len(w) == 52, k, w)
    ctx.check('import-accepted', judge(ctx, w, 'own export') == k, w)
    ctx.equal('export-repeats', ctx.returned('export-given', ctx.call('Export', kp.Export)), w)
    ctx.seen(kind, form, *keys.kind(k))


def imports(ctx):
    """standard texts made elsewhere"""
    rng = ctx.rng
    for _ in range(6):
        k = gen.special_bytes(rng, 32) if rng.random() < .7 else keys.key(rng)
        ctx.check('import-accepted', judge(ctx, oracle.wif(k), 'foreign export') == k)
        ctx.seen(k[0], k[31], k.count(0))


def layouts(ctx):
    """right checksum, but another version, suffix, length"""
    rng = ctx.rng
    k = gen.special_bytes(rng, 32) if rng.random() < .5 else keys.key(rng)
    i = ctx.index % 256
    for p in (bytes([i]) + k + b'\x01', b'\x80' + k + bytes([i]), bytes([i]) + k + bytes([i]), b'\x80' + k, b'\x80' + k + b'\x01\x01', k + b'\x01', b'\x80' + k[1:] + b'\x01',
              b'\x80' + k + b'\x00' + b'\x01', b'\x00\x80' + k + b'\x01', b'\x80\x00' + k + b'\x01', b'\x80' + rng.randbytes(rng.randrange(45)) + b'\x01'):
        t = oracle.b58check(p)
        judge(ctx, t, 'layout')
        ctx.seen(len(t), len(p), p[0], p[-1])
    # 52-character texts of other payloads: leading ones
    p = rng.randbytes(33)
    t = oracle.b58check(b'\x00' + p)
    judge(ctx, t, 'leading zero')


def damaged(ctx):
    rng = ctx.rng
    k = keys.key(rng)
    w = oracle.wif(k)
    for _ in range(8):
        t = w
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = gen.mutate_text(rng, t, rng.choice([B58, B58 + '0OIl', ' \n\t0é\x00']))
        judge(ctx, t, 'damaged')
        ctx.seen(len(t), sum(a != b for a, b in zip(t, w)))
    for _ in range(5):
        judge(ctx, gen.decorated(rng, w), 'decorated')
        judge(ctx, gen.decorated(rng, w[:rng.choice([52, 51, 50, 49, 48])])[:52], 'decorated')
    # 52 characters with a character replaced: always reaches the decoder
    i = rng.randrange(52)
    judge(ctx, w[:i] + rng.choice(B58) + w[i + 1:], 'replaced')
    judge(ctx, w[:i] + rng.choice('0OIl é') + w[i + 1:], 'not base58')


def checksums(ctx):
    rng = ctx.rng
    p = b'\x80' + keys.key(rng) + b'\x01'
    c = oracle.hash256(p)
    k = rng.randrange(32)
    bit = bytearray(c[:4])
    bit[k // 8] ^= 1 << (k % 8)
    part = rng.randrange(4)
    for name, x in (('one bit', bytes(bit)), ('single sha', oracle.sha256(p)[:4]), ('last four', c[-4:]), ('reversed', c[:4][::-1]), ('zero', bytes(4)),
                    ('without suffix', oracle.hash256(p[:-1])[:4]), ('partly right', c[:part] + rng.randbytes(4 - part)), ('right', c[:4]), ('three', c[:3]), ('five', c[:5])):
        judge(ctx, oracle.b58encode(p + x), name)
        ctx.seen(name, k, part)
    q = bytearray(p)
    q[rng.randrange(1, 33)] ^= 1 << rng.randrange(8)
    judge(ctx, oracle.b58encode(bytes(q) + c[:4]), 'key bit')
    q = bytearray(p)
    q[rng.choice([0, 33])] ^= 1 << rng.randrange(8)
    judge(ctx, oracle.b58encode(bytes(q) + c[:4]), 'version or suffix bit')


def lengths(ctx):
    rng = ctx.rng
    n = ctx.index % 120
    for t in ('K' * n, '1' * n, ''.join(rng.choice(B58) for _ in range(n)), gen.text(rng, n), gen.text(rng, 52), 'é' * n,
              (oracle.wif(keys.key(rng)) * 3)[:n], oracle.address(rng.randbytes(20))):
        judge(ctx, t, 'length')
        ctx.seen(len(t), t[:1])


MINED = keys.mined('wif')


def mined(ctx):
    """keys whose text has a checksum of unusual bytes"""
    mark, k = MINED[ctx.index % len(MINED)]
    kp = ctx.returned('key-accepted', ctx.call('KeyPair', KeyPair, k))
    w = ctx.returned('export-given', ctx.call('Export', kp.Export))
    ctx.check('export-standard', w == oracle.wif(k), mark, k, w)
    judge(ctx, w, 'own export')
    judge(ctx, oracle.wif(k), 'foreign export')
    p = b'\x80' + k + b'\x01'
    c = oracle.hash256(p)[:4]
    for i in range(4):
        for v in (0, 255, c[i] ^ 1, c[i] ^ 0x80):
            judge(ctx, oracle.b58encode(p + c[:i] + bytes([v]) + c[i + 1:]), 'checksum byte')
    ctx.seen(mark)


FAMILIES = [Family('mined', len(MINED), len(MINED), mined), Family('roundtrip', 9000, 60000, roundtrip), Family('imports', 6000, 60000, imports), Family('layouts', 2560, 25600, layouts),
            Family('damaged', 7500, 80000, damaged), Family('checksums', 7500, 60000, checksums), Family('lengths', 1200, 24000, lengths)]

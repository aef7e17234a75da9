from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.KeyPair import KeyPair
from neocore.UInt160 import UInt160

PROP = 'K01'


def judge(ctx, form, data, k, pt):
    out = ctx.call('KeyPair(%s)' % form, KeyPair, data)
    kp = ctx.returned('key-accepted', out, form, k)
    ctx.check('private-key', bytes(kp.PrivateKey) == k, form, k, bytes(kp.PrivateKey))
    P = kp.PublicKey
    ctx.check('public-key', (P.x.value, P.y.value) == pt, form, k, P, 'expected', '%x %x' % pt)
    c = oracle.compress(pt)
    ctx.equal('public-key', bytes(P.encode_point(True)), c.hex().encode(), form)
    ctx.check('public-key-hash', type(kp.PublicKeyHash) is UInt160 and bytes(kp.PublicKeyHash.Data) == oracle.hash160(c), form, k, kp.PublicKeyHash)
    a = ctx.returned('address', ctx.call('GetAddress', kp.GetAddress), form, k)
    ctx.equal('address', a, oracle.address(oracle.hash160(b'\x21' + c + b'\xac')), form, k)
    return kp


def one(ctx, k, forms=None):
    rng = ctx.rng
    pt = oracle.pub_of(k)
    xy = oracle.b32(pt[0]) + oracle.b32(pt[1])
    judge(ctx, '32', rng.choice([bytes, bytearray])(k), k, pt)
    if forms or rng.random() < .35:
        judge(ctx, '96', rng.choice([bytes, bytearray])(xy + k), k, pt)
        lead = rng.choice([bytes(8), b'\xff' * 8, b'\x04' + bytes(7), b'ECS2 \0\0\0', b'ECS1 \0\0\0', rng.randbytes(8)])
        judge(ctx, '104', rng.choice([bytes, bytearray])(lead + xy + k), k, pt)
        ctx.seen('forms', lead[:1])
    ctx.seen(*keys.kind(k))


def random_keys(ctx):
    k = keys.key(ctx.rng)
    one(ctx, k)


def edges(ctx):
    one(ctx, oracle.b32(keys.EDGE[ctx.index % len(keys.EDGE)]), True)
    ctx.seen('edge', ctx.index)


def mined(ctx):
    ks = keys.mined_keys()
    kind, k = ks[ctx.index % len(ks)]
    one(ctx, k, True)
    # the mirror key: same x, other y
    one(ctx, oracle.b32(keys.N - int.from_bytes(k, 'big')), True)
    ctx.seen('mined', kind, ctx.index)


BADNUM = [0, keys.N, keys.N + 1, keys.N + 2, (1 << 256) - 1, (1 << 256) - 2, oracle.R1.p, oracle.R1.p - 1, oracle.R1.p + 1, keys.N + (1 << 128)]


def refused(ctx):
    rng = ctx.rng
    if ctx.index < 210:
        n = ctx.index
        if n not in (32, 96, 104):
            for d in (rng.randbytes(n), bytes(n), b'\x01' * n, bytes(rng.choice(gen.HEXD) for _ in range(n))):
                ctx.refused('length-refused', ctx.call('KeyPair', KeyPair, rng.choice([bytes, bytearray])(d)), '%d bytes' % n)
            k = keys.key(rng)
            if n < 32:
                ctx.refused('length-refused', ctx.call('KeyPair', KeyPair, k[:n]), '%d bytes' % n)
            else:
                xy = b''.join(map(oracle.b32, oracle.pub_of(k)))
                for d in (k + bytes(n), bytes(n) + k, bytes(8) + xy + k + bytes(n)):
                    if len(d[:n]) == n:
                        ctx.refused('length-refused', ctx.call('KeyPair', KeyPair, d[:n]), '%d bytes' % n)
            ctx.seen('length', n)
    v = rng.choice(BADNUM) if rng.random() < .5 else keys.N + rng.getrandbits(rng.randrange(1, 225))
    v = v if v < 1 << 256 else keys.N
    if ctx.index < len(BADNUM):
        v = BADNUM[ctx.index]
    ctx.refused('number-refused', ctx.call('KeyPair', KeyPair, rng.choice([bytes, bytearray])(oracle.b32(v))), hex(v))
    ctx.seen('number', v.bit_length(), v >> 240, v == keys.N, v == 0)


def several(ctx):
    """key pairs alive together stay what they were"""
    rng = ctx.rng
    base = keys.scalar(rng)
    ks = [oracle.b32((base + d) % keys.N or 1) for d in range(3)]
    ks.append(ks[0])
    bufs = [bytearray(k) for k in ks]
    kps = [judge(ctx, '32', b, k, oracle.pub_of(k)) for b, k in zip(bufs, ks)]
    for b in bufs:
        b[:] = rng.randbytes(32)                    # callers reuse their buffers
    for k, kp in zip(ks, kps):
        ctx.check('key-pairs-independent', bytes(kp.PrivateKey) == k and (kp.PublicKey.x.value, kp.PublicKey.y.value) == oracle.pub_of(k)
                  and kp.GetAddress() == oracle.key_address(k), k)
    ctx.takes(kps[3])
    if isinstance(kps[3].PrivateKey, bytearray):
        kps[3].PrivateKey[:] = bytes(32)            # a key wiped after use; the other pair of the same key keeps its own
    ctx.check('key-pairs-independent', bytes(kps[0].PrivateKey) == ks[0] and kps[0].Export() == oracle.wif(ks[0]), 'another pair of the same key was wiped', ks[0])
    judge(ctx, '32', ks[0], ks[0], oracle.pub_of(ks[0]))
    ctx.seen('several', keys.kind(ks[0]))


FAMILIES = [Family('random_keys', 5000, 200000, random_keys), Family('edges', len(keys.EDGE), len(keys.EDGE), edges), Family('mined', 240, 240, mined),
            Family('refused', 1200, 20000, refused), Family('several', 400, 8000, several)]

from vlib import kdf
kdf.install()
from vlib.core import Family  # noqa: E402
from vlib import gen, keys, nep2, oracle  # noqa: E402
from neocore.KeyPair import KeyPair  # noqa: E402

PROP = 'K03'


def pair(ctx, k):
    rng = ctx.rng
    data = k
    f = rng.randrange(4)
    if f > 1:
        data = b''.join(map(oracle.b32, oracle.pub_of(k))) + k
    if f == 3:
        data = rng.randbytes(8) + data
    return ctx.returned('key-accepted', ctx.call('KeyPair', KeyPair, rng.choice([bytes, bytearray])(data)))


def roundtrip(ctx, k, pw, real=False):
    rng = ctx.rng
    kp = pair(ctx, k)
    t = nep2.export(ctx, kp, k, pw, real)
    variants = [v for v in gen.nfc_variants(rng, pw)]
    rng.shuffle(variants)
    for v in [pw] + variants[:1 if real else 3]:
        nep2.gives(ctx, KeyPair, t, v, k, 'own export' if v == pw else 'equivalent passphrase', real)
        ctx.seen('variant', v == pw)
    if variants and len(variants[0]) >= 2 and not real:
        ctx.equal('same-text-for-equivalent', nep2.export(ctx, kp, k, variants[0]), t)
    ctx.check('pair-unchanged', bytes(kp.PrivateKey) == k and kp.GetAddress() == oracle.key_address(k), k)
    ctx.seen(*nep2.kind(pw))
    ctx.seen(*keys.kind(k))


def mass(ctx):
    rng = ctx.rng
    if ctx.index < 240:
        ks = keys.mined_keys()
        k = ks[ctx.index % len(ks)][1]
    elif ctx.index < 400:
        k = oracle.b32(rng.choice(keys.EDGE))
    else:
        k = keys.key(rng)
    roundtrip(ctx, k, nep2.passphrase(rng))


def foreign(ctx):
    """texts made by another implementation (the reference) are decrypted here"""
    rng = ctx.rng
    k, pw = keys.key(rng), nep2.passphrase(rng)
    t = oracle.nep2_encrypt(k, pw, kdf.cheap)
    with kdf.standin() as st:
        out = ctx.call('PrivateKeyFromNEP2', KeyPair.PrivateKeyFromNEP2, t, pw)
    if not out.ok and not st.used:
        ctx.note('stand-in', 'not used by the code under test')
        return
    got = ctx.returned('decryption-given', out, repr(pw))
    ctx.check('same-key', bytes(got) == k, t, repr(pw), got, k)
    ctx.seen(*nep2.kind(pw))


def histories(ctx):
    """several keys and passphrases interleaved: nothing carries over"""
    rng = ctx.rng
    ks = [keys.key(rng) for _ in range(2)]
    pws = [nep2.passphrase(rng), nep2.passphrase(rng)]
    pairs = [pair(ctx, k) for k in ks]
    texts = {}
    steps = [(a, i, j) for a in 'ed' for i in range(2) for j in range(2)]
    rng.shuffle(steps)
    steps.sort(key=lambda s: rng.random())
    for a, i, j in steps + steps[:2]:
        if a == 'e' or (i, j) not in texts:
            texts[i, j] = nep2.export(ctx, pairs[i], ks[i], pws[j])
        else:
            nep2.gives(ctx, KeyPair, texts[i, j], pws[j], ks[i], 'interleaved')
        if rng.random() < .2:
            nep2.refuses(ctx, KeyPair, texts.get((i, j), 'x' * 58), pws[j] + 'no', 'interleaved', monitor='wrong-refused')
        ctx.seen(a, i, j)


REAL = ['TestingOneTwoThree', 'pass \u00e9\u00e8', 'pass e\u0301e\u0300', '\u03d2\u0301\u0000\U00010400\U0001f4a9', 'x' * 64, 'y' * 65, 'é' * 70, '  ', '12', '\x00\x00', 'p\x00', '가각', 'A' * 1000]


def real_scrypt(ctx):
    rng = ctx.rng
    k = keys.key(rng)
    if ctx.index < 12:
        byk = {}
        for kind, x in keys.mined_keys():
            byk[kind] = x
        k = list(byk.values())[ctx.index % len(byk)]
    pw = REAL[ctx.index] if ctx.index < len(REAL) else nep2.passphrase(rng)
    roundtrip(ctx, k, pw, real=True)
    t = oracle.nep2_encrypt(k, pw)
    nep2.gives(ctx, KeyPair, t, pw, k, 'foreign text', True)
    ctx.seen('real')


# test vectors of the NEP-2 document
VECTORS = [('6PYVPVe1fQznphjbUxXP9KZJqPMVnVwCx5s5pr5axRJ8uHkMtZg97eT5kL', 'TestingOneTwoThree', 'CBF4B9F70470856BB4F40F80B87EDB90865997FFEE6DF315AB166D713AF433A5'),
           ('6PYN6mjwYfjPUuYT3Exajvx25UddFVLpCw4bMsmtLdnKwZ9t1Mi3CfKe8S', 'Satoshi', '09C2686880095B1A4C249EE3AC4EEA8A014F11E6F986D0B5025AC1F39AFBD9AE')]


def published(ctx):
    t, pw, k = VECTORS[ctx.index % len(VECTORS)]
    k = bytes.fromhex(k)
    nep2.gives(ctx, KeyPair, t, pw, k, 'published vector', True)
    ctx.equal('export-standard', ctx.returned('export-given', ctx.call('ExportNEP2', KeyPair(k).ExportNEP2, pw)), t)
    ctx.seen('published', ctx.index)


FAMILIES = [Family('mass', 1600, 60000, mass), Family('foreign', 800, 30000, foreign), Family('histories', 300, 10000, histories),
            Family('real_scrypt', 24, 1200, real_scrypt), Family('published', 2, 2, published)]

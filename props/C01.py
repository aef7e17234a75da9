import hashlib
from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography.ECCurve import ECDSA
from neocore.KeyPair import KeyPair

PROP = 'C01'


def message(rng):
    k = rng.randrange(10)
    if k == 0:
        return b''
    if k == 1:
        return rng.randbytes(32)
    return gen.bytestr(rng, big=0.03)


def sign(ctx, m, k):
    rng = ctx.rng
    hexm = rng.choice([m.hex(), m.hex().encode(), m.hex().upper()])
    hk = k.hex()
    form = rng.choice([hk, hk, hk.upper(), k, bytearray(k)])
    fn, name = rng.choice([(Crypto.Sign, 'Crypto.Sign'), (Crypto.Default().Sign, 'Default.Sign'), (CryptoInstance().Sign, 'CryptoInstance.Sign')])
    sig = ctx.returned('signature-given', ctx.call(name, fn, hexm, form), 'key', k)
    ctx.check('signature-shape', isinstance(sig, (bytes, bytearray)) and len(sig) == 64, sig)
    sig = bytes(sig)
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    e = int.from_bytes(hashlib.sha256(m).digest(), 'big')
    ctx.check('standard-signature', oracle.R1.ecdsa_valid(e, r, s, oracle.pub_of(k)), 'key', k, 'message', m, 'signature', sig)
    # offline: no two signatures of different keys or messages share r
    ident = k.hex() + hashlib.sha256(m).hexdigest()[:32]
    table = ctx.run.extra.setdefault('_r', {})
    other = table.setdefault('%064x' % r, ident)
    ctx.check('first-number-not-shared', other == ident, 'r', sig[:32], 'by', other, 'and', ident)
    ctx.run.extra['signatures_recorded'] = ctx.run.extra.get('signatures_recorded', 0) + 1
    return sig


def verified(ctx, m, sig, k, n=1):
    """accepted under every form of the public key and message"""
    rng = ctx.rng
    pt = oracle.pub_of(k)
    raw = oracle.b32(pt[0]) + oracle.b32(pt[1])
    pubs = [('64 bytes', lambda: raw), ('33 bytes', lambda: oracle.compress(pt)), ('point', lambda: ECDSA.secp256r1().Curve.point(*pt)),
            ('key pair point', lambda: KeyPair(k).PublicKey), ('decoded point', lambda: ECDSA.decode_secp256r1(oracle.compress(pt).hex()).G)]
    msgs = [('hex text', m.hex(), True), ('HEX text', m.hex().upper(), True), ('hex bytes', m.hex().encode(), True), ('raw bytes', m, False)]
    combos = [(p, q) for p in pubs for q in msgs]
    rng.shuffle(combos)
    for (pn, pf), (mn, mv, unhex) in combos[:n]:
        fn, name = rng.choice([(Crypto.VerifySignature, 'Crypto.VerifySignature'), (Crypto.Default().VerifySignature, 'Default.VerifySignature')])
        sv = rng.choice([bytes, bytearray])(sig)
        out = ctx.call(name, fn, mv, sv, pf(), unhex=unhex) if not unhex or rng.random() < .5 else ctx.call(name, fn, mv, sv, pf())
        got = ctx.returned('own-signature-verified', out, pn, mn)
        ctx.check('own-signature-verified', got is True, 'key', k, 'message', m, 'as', mn, 'public key as', pn, 'signature', sig)
        ctx.seen('form', pn, mn)


def signing(ctx):
    rng = ctx.rng
    k, m = keys.key(rng), message(rng)
    sig = sign(ctx, m, k)
    if rng.random() < .3:
        ctx.check('same-signature', sign(ctx, m, k) == sig, 'key', k, 'message', m)
    ctx.seen(len(m), k[0] >> 5, sig[0] == 0, sig[32] == 0, sig[0] >> 7, sig[32] >> 7)
    if rng.random() < .06:
        verified(ctx, m, sig, k)


def mined(ctx):
    """messages and keys whose digest or deterministic numbers have leading or trailing zero bytes"""
    ms = keys.mined_sigs()
    kind, k, m = ms[ctx.index % len(ms)]
    sig = sign(ctx, m, k)
    verified(ctx, m, sig, k, 2)
    ctx.check('same-signature', sign(ctx, m, k) == sig, 'key', k, 'message', m)
    ctx.seen(kind, sig[0] == 0, sig[32] == 0, sig[31] == 0, sig[63] == 0)
    ctx.run.extra['short_r_or_s'] = ctx.run.extra.get('short_r_or_s', 0) + (sig[0] == 0 or sig[32] == 0)


def digests(ctx):
    ds = [(a, bytes.fromhex(h)) for a, hs in sorted(keys.vectors()['digests'].items()) for h in hs]
    kind, m = ds[ctx.index % len(ds)]
    k = keys.key(ctx.rng)
    sig = sign(ctx, m, k)
    verified(ctx, m, sig, k, 1)
    ctx.seen(kind, ctx.index % len(ds))


def edge_keys(ctx):
    k = oracle.b32(keys.EDGE[ctx.index % len(keys.EDGE)])
    m = message(ctx.rng)
    sig = sign(ctx, m, k)
    if ctx.index % 12 == 0:
        verified(ctx, m, sig, k)
    ctx.seen('edge', ctx.index)


def related(ctx):
    """related keys and messages: same signature only for same key and message"""
    rng = ctx.rng
    d = keys.scalar(rng)
    ks = {oracle.b32(x % keys.N or 1) for x in (d, d + 1, -d, d * 2, d ^ 1, d ^ (1 << 255), d >> 8, d << 8, d >> 128, d & (1 << 128) - 1)}
    m = message(rng) or b'm'
    n = int.from_bytes(m, 'big')
    h = hashlib.sha256(m).digest()
    ms = {m, m + b'\0', b'\0' + m, m[:-1], m[1:], m[::-1], m + m, b'', bytes([m[0] ^ 1]) + m[1:], m[:-1] + bytes([m[-1] ^ 1]), m.upper(), m.hex().encode(),
          h, (n + 1).to_bytes(len(m) + 1, 'big'), m[:32], m[:64], m.rstrip(b'\0'), m.lstrip(b'\0')}
    ks, ms = sorted(ks), sorted(ms)
    pairs = [(k, x) for k in ks for x in ms]
    keep = rng.sample(pairs, min(len(pairs), 14)) + [(ks[0], x) for x in rng.sample(ms, min(len(ms), 6))] + [(k, m) for k in ks[:6]]
    sigs = {}
    for k, x in keep:
        sig = sign(ctx, x, k)
        ctx.check('same-signature', sigs.setdefault((k, x), sig) == sig, 'key', k, 'message', x)
    firsts = [s[:32] for s in sigs.values()]
    ctx.check('first-number-not-shared', len(set(firsts)) == len(firsts), 'among %d signatures of related keys and messages' % len(firsts))
    ctx.seen('related', len(ks), len(ms), len(m))


def common(ctx):
    """the same keys and messages signed by every worker process; compared by the merge step"""
    import random
    r = random.Random('common%d-%d' % (ctx.seed, ctx.index // ctx.run.nshards))
    k, m = keys.key(r), message(r)
    sig = sign(ctx, m, k)
    ctx.run.extra.setdefault('_common', {})[k.hex() + ':' + m.hex()] = sig.hex()
    ctx.seen('common', ctx.index)


def forms(ctx):
    """every form of key and message for one signature"""
    rng = ctx.rng
    k, m = keys.key(rng), message(rng)
    verified(ctx, m, sign(ctx, m, k), k, 20)
    ctx.seen('all', len(m))


FAMILIES = [Family('signing', 6000, 250000, signing), Family('mined', 132, 132, mined), Family('digests', 60, 60, digests), Family('edge_keys', len(keys.EDGE), len(keys.EDGE), edge_keys),
            Family('related', 240, 8000, related), Family('common', 8 * 60, 8 * 500, common), Family('forms', 16, 800, forms)]

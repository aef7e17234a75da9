import hashlib
import unicodedata
from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.ECCurve import ECDSA

PROP = 'C02'
R1, K1 = oracle.R1, oracle.K1
N, P = R1.n, R1.p
b32 = oracle.b32


def digest(m):
    return int.from_bytes(hashlib.sha256(m).digest(), 'big')


def rs(r, s):
    return b32(r) + b32(s)


def verify(ctx, mv, sig, pub, unhex=None):
    fn, name = ctx.rng.choice([(Crypto.VerifySignature, 'Crypto.VerifySignature'), (Crypto.Default().VerifySignature, 'Default.VerifySignature')])
    out = ctx.call(name, fn, mv, sig, pub) if unhex is None else ctx.call(name, fn, mv, sig, pub, unhex=unhex)
    got = ctx.returned('never-fails', out, mv, sig, pub)
    ctx.check('boolean', got is True or got is False, got)
    return got


def forms(ctx, pt):
    """one accepted form of a public key"""
    k = ctx.rng.randrange(4)
    if k == 0:
        return oracle.compress(pt)
    if k == 1:
        return ECDSA.secp256r1().Curve.point(*pt)
    return b32(pt[0]) + b32(pt[1])


def msg(ctx, m):
    k = ctx.rng.randrange(4)
    return [(m.hex(), None), (m.hex().encode(), True), (m, False), (m.hex().upper(), True)][k]


def judge(ctx, m, sig, pt, why, want=None):
    """sig: bytes of any length; pt: a curve point. The reference decides."""
    if want is None:
        want = len(sig) == 64 and R1.ecdsa_valid(digest(m), int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'), pt)
    mv, unhex = msg(ctx, m)
    got = verify(ctx, mv, ctx.rng.choice([bytes, bytearray])(sig), forms(ctx, pt), unhex)
    ctx.check('accepts-valid' if want else 'refuses-invalid', got is want, why, 'message', m, 'signature', sig, 'key', '%x %x' % pt, 'gave', got)
    ctx.seen(why, want)
    return want


def signed(ctx, m=None):
    rng = ctx.rng
    m = gen.bytestr(rng, big=0) if m is None else m
    d = keys.scalar(rng)
    k = rng.randrange(1, N)
    r, s = R1.ecdsa_sign(digest(m), d, k)
    return m, d, R1.mul_g(d), r, s


def crafted(ctx):
    """valid signatures with unusual numbers, under keys made to fit"""
    rng = ctx.rng
    m = gen.bytestr(rng, big=0)
    e = digest(m)
    k = rng.randrange(6)
    R = None
    while R is None or R[0] % N == 0:
        if k == 0:
            x = rng.randrange(N, P)                 # first number is x - N
        elif k == 1:
            x = rng.getrandbits(rng.randrange(1, 250))
        elif k == 2:
            x = (P - 1 - rng.getrandbits(rng.randrange(1, 130))) % P
        elif k == 3:
            x = N - 1 - rng.getrandbits(20)
        elif k == 4:
            x = rng.getrandbits(240) << 16
        else:
            x = rng.randrange(P)
        R = R1.lift_x(x, rng.getrandbits(1))
    s = rng.choice([1, 2, N - 1, N - 2, N >> 1, (N >> 1) + 1, rng.getrandbits(rng.randrange(1, 250)) or 1, rng.getrandbits(240) << 8 or 1, rng.randrange(1, N)]) % N or 1
    pt = R1.craft(e, R, s)
    if pt is None:
        return
    r = R[0] % N
    judge(ctx, m, rs(r, s), pt, 'crafted %d' % k, True)
    ctx.seen('crafted', k, (r.bit_length() + 7) // 8, (s.bit_length() + 7) // 8)
    if k == 0 and ctx.index % 3 == 0:
        judge(ctx, m, rs(R[0], s), pt, 'first number not reduced', False)
    judge(ctx, m, rs(r, N - s), pt, 'second number negated', True)
    sig = rs(r, s)
    for how, t in (('zeros cut', sig.rstrip(b'\0')), ('one zero cut', sig[:-1]), ('leading zeros cut', sig.lstrip(b'\0')), ('first zeros cut', sig[:32].lstrip(b'\0') + sig[32:]), ('second zeros cut', sig[:32] + sig[32:].lstrip(b'\0')),
                   ('first trailing zeros cut', sig[:32].rstrip(b'\0') + sig[32:])):
        if len(t) < 64 and (how != 'one zero cut' or ctx.index % 8 == 0):
            judge(ctx, m, t, pt, how, False)


def numbers(ctx):
    """zero, out-of-range and swapped numbers"""
    rng = ctx.rng
    m, d, pt, r, s = signed(ctx)
    big = (1 << 256) - 1
    pairs = [(0, 0), (0, s), (r, 0), (N, s), (r, N), (N, N), (0, 1), (1, 0), (N, 0), (0, N), (big, s), (r, big), (P, s), (r, P), (s, r), (1, 1), (N - 1, N - 1), (r, (s + 1) % N), ((r + 1) % N, s),
             (N - r, s), (r, r), (s, s), (pt[0], s), (pt[0] % N, digest(m) % N), (r, N - s), (r, s)]
    for a in rng.sample(pairs, 9):
        judge(ctx, m, rs(*a), pt, 'numbers %d' % pairs.index(a))
    # values that reduce to valid ones
    x = rng.getrandbits(200) + 1
    R = None
    while R is None or R[0] + N >= 1 << 256:
        R = R1.lift_x(rng.getrandbits(rng.choice([100, 180, 220])), rng.getrandbits(1))
    s = rng.getrandbits(200) + 1
    pt = R1.craft(digest(m), R, s)
    if pt is not None and R[0]:
        judge(ctx, m, rs(R[0], s), pt, 'small numbers', True)
        judge(ctx, m, rs(R[0] + N, s), pt, 'first number plus order', False)
        judge(ctx, m, rs(R[0], s + N), pt, 'second number plus order', False)


def special_messages(ctx):
    """keys for which u1*G + u2*Q is the point at infinity, a doubling, or the key itself"""
    rng = ctx.rng
    m = gen.bytestr(rng, big=0)
    e = digest(m)
    r = rng.randrange(1, N)
    s = rng.randrange(1, N)
    d = -e * pow(r, -1, N) % N                       # e + r d = 0: sum is infinity
    judge(ctx, m, rs(r, s), R1.mul_g(d), 'sum is infinity', False)
    # u1 G == u2 Q: d = e/r ; choose R = 2 u1 G
    R = R1.mul_g(rng.randrange(1, N))
    r = R[0] % N
    d = e * pow(r, -1, N) % N
    k = rng.randrange(1, N)
    # need s with k = 2e/s and x(kG) = r: craft with R = kG, s = 2e/k, d = e/r
    R = R1.mul_g(k)
    r = R[0] % N
    s = 2 * e * pow(k, -1, N) % N
    d = e * pow(r, -1, N) % N
    judge(ctx, m, rs(r, s), R1.mul_g(d), 'sum is a doubling', True)
    # key = base point, its negation
    for d in (1, N - 1, 2):
        r, s = R1.ecdsa_sign(e, d, k)
        judge(ctx, m, rs(r, s), R1.mul_g(d), 'small key', True)


def altered(ctx):
    """a bit of the message, the signature or the key changed; other keys; other messages"""
    rng = ctx.rng
    m, d, pt, r, s = signed(ctx)
    sig = rs(r, s)
    judge(ctx, m, sig, pt, 'valid', True)
    judge(ctx, gen.mutate_bytes(rng, m), sig, pt, 'message altered')
    i = rng.randrange(512)
    t = bytearray(sig)
    t[i // 8] ^= 1 << (i % 8)
    judge(ctx, m, bytes(t), pt, 'signature bit', False)
    judge(ctx, m, sig, R1.neg(pt), 'other parity', False)
    judge(ctx, m, sig, R1.mul_g((d + rng.choice([1, -1, rng.randrange(2, N)])) % N or 1), 'other key')
    if ctx.index % 3 == 0:
        same = R1.lift_y(pt[1], rng.randrange(99))
        if same and same != pt:
            judge(ctx, m, sig, same, 'other key of the same y', False)
    judge(ctx, m, sig[32:] + sig[:32], pt, 'swapped', r == s)
    judge(ctx, m + rng.choice([b'\0', b' ', m or b'x']), sig, pt, 'message longer', False)
    e2 = digest(m)
    judge(ctx, hashlib.sha256(m).digest(), sig, pt, 'digest as message', False)
    # a signature of the digest itself, of sha256d, of the hex
    for how, e in (('double hash', int.from_bytes(oracle.hash256(m), 'big')), ('hash of hex', digest(m.hex().encode())), ('no hash', int.from_bytes(m[:32], 'big')), ('reversed hash', int.from_bytes(hashlib.sha256(m).digest()[::-1], 'big')),
                   ('sha1', int.from_bytes(hashlib.sha1(m).digest(), 'big'))):
        if rng.random() < .4:
            a, b = R1.ecdsa_sign(e, d, rng.randrange(1, N))
            judge(ctx, m, rs(a, b), pt, how)
    if rng.random() < .5:
        k = rng.randrange(1, K1.n)
        a, b = K1.ecdsa_sign(e2, d % K1.n or 1, k)
        judge(ctx, m, rs(a, b), pt, 'other curve', False)


def der(r, s):
    def i(v):
        b = v.to_bytes((v.bit_length() + 8) // 8, 'big')
        return b'\x02' + bytes([len(b)]) + b
    c = i(r) + i(s)
    return b'\x30' + bytes([len(c)]) + c


def lengths(ctx):
    """truncated and extended signatures; other encodings of valid numbers"""
    rng = ctx.rng
    m, d, pt, r, s = signed(ctx)
    if rng.random() < .5:
        R = None
        while R is None:
            R = R1.lift_x(rng.getrandbits(rng.choice([240, 247])) | 1, rng.getrandbits(1))
        r, s = R[0], rng.getrandbits(rng.choice([240, 247])) | 1
        pt = R1.craft(digest(m), R, s)
        if pt is None:
            return
    sig = rs(r, s)
    judge(ctx, m, sig, pt, 'valid', True)
    for how, t in (('cut', sig[:-1]), ('cut front', sig[1:]), ('zero after', sig + b'\0'), ('zero before', b'\0' + sig), ('hash type', sig + b'\x01'), ('der', der(r, s)), ('minimal', r.to_bytes((r.bit_length() + 7) // 8, 'big') + s.to_bytes((s.bit_length() + 7) // 8, 'big')),
                   ('twice', sig + sig), ('half', sig[:32]), ('empty', b''), ('hex', sig.hex().encode()), ('33 and 33', b'\0' + sig[:32] + b'\0' + sig[32:]), ('v', b'\x1b' + sig),
                   ('31 and 31', sig[1:32] + sig[33:]), ('any', rng.randbytes(rng.randrange(130))), ('some', sig[:rng.randrange(64)]), ('more', sig + rng.randbytes(rng.randrange(1, 70)))):
        if len(t) != 64:
            judge(ctx, m, t, pt, 'signature ' + how, False)
            ctx.seen('len', len(t))
    le = r.to_bytes(32, 'little') + s.to_bytes(32, 'little')
    judge(ctx, m, le, pt, 'little endian')


def badkey(ctx, m, sig, pub, why):
    mv, unhex = msg(ctx, m)
    got = verify(ctx, mv, sig, pub, unhex)
    ctx.check('malformed-key-refused', got is False, why, 'key', pub, 'message', m, 'signature', sig)
    ctx.seen(why, len(pub) if isinstance(pub, bytes) else type(pub).__name__)


def malformed(ctx):
    rng = ctx.rng
    m, d, pt, r, s = signed(ctx)
    sig = rs(r, s)
    X, Y = b32(pt[0]), b32(pt[1])
    c = oracle.compress(pt)
    curve = ECDSA.secp256r1().Curve
    kc = ECDSA.secp256k1().Curve
    kp = K1.mul_g(d % K1.n or 1)
    bad = [('prefix', bytes([f]) + X) for f in rng.sample([f for f in range(256) if f not in (2, 3)], 4)]
    bad += [('prefix 64', b'\x04' + X), ('prefix 0', b'\0' + X), ('prefix 1', b'\x01' + X), ('wrong parity', bytes([c[0] ^ 1]) + X)]
    bad += [('length', (X + Y)[:n]) for n in rng.sample([n for n in range(64) if n != 33], 4)]
    bad += [('longer', X + Y + rng.randbytes(n)) for n in rng.sample(range(1, 60), 3)]
    bad += [('empty', b''), ('33 zeros', bytes(33)), ('64 zeros', bytes(64)), ('33 ff', b'\xff' * 33), ('64 ff', b'\xff' * 64), ('32 of compressed', c[:32]), ('compressed and one', c + b'\0'),
            ('two zeros', b'\2' + bytes(32)), ('swapped', Y + X), ('little', X[::-1] + Y[::-1]), ('y bit', X + b32(pt[1] ^ (1 << rng.randrange(255)))), ('x bit', b32(pt[0] ^ (1 << rng.randrange(255))) + Y),
            ('hybrid', b'\x06' + X + Y), ('hybrid', b'\x07' + X + Y), ('five', b'\x05' + X + Y), ('zero x', bytes(32) + Y), ('p and y', b32(P) + Y), ('k1 point', b32(kp[0]) + b32(kp[1])),
            ('any 64', rng.randbytes(64)), ('any', rng.randbytes(rng.choice([0, 1, 20, 32, 40, 63, 66, 96, 104]))),
            ('point off curve', curve.point(pt[0], (pt[1] + 1) % P)), ('infinity', curve.Infinity), ('k1 object', kc.point(*kp)), ('point 1 1', curve.point(1, 1)),
            ('point too large', curve.point(pt[0] + (P << 8), pt[1])), ('point negative', curve.point(-1, pt[1])), ('negative y', curve.point(pt[0], -pt[1])), ('point beyond', curve.point(pt[0], pt[1] + (1 << 257))),
            ('None', None), ('number', 5), ('text', 'abc'), ('list', [1, 2]), ('object', object())]
    # x of no point
    while True:
        x = rng.randrange(P)
        if R1.lift_x(x, 0) is None:
            break
    bad += [('no such x', b'\2' + b32(x)), ('no such x', b'\3' + b32(x)), ('x over p', b'\2' + b32(P + rng.randrange(1000)))]
    for why, k in rng.sample(bad, 14):
        if why == 'wrong parity' or not (isinstance(k, bytes) and len(k) == 64 and R1.on_curve((int.from_bytes(k[:32], 'big'), int.from_bytes(k[32:], 'big')))):
            badkey(ctx, m, sig, k, why)


def wrapped(ctx):
    """coordinates not reduced: x or y plus the prime, where that fits 32 bytes"""
    rng = ctx.rng
    m = gen.bytestr(rng, big=0)
    pt = None
    # coordinates below 2**224 - ... are rare: use a key with a small x and the signature equation solved for it is not
    # possible, so take any signature; the answer must be False whatever it is
    while pt is None:
        pt = R1.lift_x(rng.getrandbits(200), rng.getrandbits(1))
    r, s = rng.randrange(1, N), rng.randrange(1, N)
    for why, k in (('x plus p', b32(pt[0] + P) + b32(pt[1])), ('x plus p', bytes([2 + (pt[1] & 1)]) + b32(pt[0] + P))):
        badkey(ctx, m, rs(r, s), k, why)


def order3(rng):
    """a point of order 3 on a curve with another constant b: not on secp256r1"""
    a = R1.a
    while True:
        x = rng.randrange(1, P)
        b = (a * a - 3 * x ** 4 - 6 * a * x * x) * pow(12 * x, -1, P) % P
        y2 = (x ** 3 + a * x + b) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P == y2 and y and not R1.on_curve((x, y)):
            return x, y


def forged(ctx):
    """forgery for a point off the curve, of order 3 under the addition formulas: must be refused"""
    rng = ctx.rng
    m = gen.bytestr(rng, big=0)
    e = digest(m)
    Q = order3(rng)
    for _ in range(60):
        s = rng.randrange(1, N)
        w = pow(s, -1, N)
        t = rng.choice([1, 2])
        R = R1.add(R1.mul_g(e * w % N), Q if t == 1 else R1.neg(Q))
        r = R[0] % N
        if r * w % N % 3 == t:
            curve = ECDSA.secp256r1().Curve
            badkey(ctx, m, rs(r, s), b32(Q[0]) + b32(Q[1]), 'forged for a point off the curve')
            badkey(ctx, m, rs(r, s), curve.point(*Q), 'forged for a point off the curve')
            ctx.seen('forged', t)
            return


def badmessage(ctx):
    """malformed messages and signatures never raise and are never accepted"""
    rng = ctx.rng
    m, d, pt, r, s = signed(ctx)
    sig = rs(r, s)
    pub = forms(ctx, pt)
    for why, mv, unhex in (('odd hex', m.hex() + '0', True), ('not hex', 'zz' * 5, True), ('None', None, True), ('None', None, False), ('number', 5, True), ('number', 7, False), ('list', [1], False), ('accents', 'é' * 4, True)):
        got = verify(ctx, mv, sig, pub, unhex)
        ctx.check('malformed-message-refused', got is False, why, mv)
        ctx.seen('message', why, unhex)
    for why, sv in (('None', None), ('number', 5), ('text', sig.hex()), ('latin text', sig.decode('latin-1')[:63]), ('list', [1, 2]), ('empty text', '')):
        got = verify(ctx, m.hex(), sv, pub)
        ctx.check('refuses-invalid', got is False, why, sv)
        ctx.seen('signature', why)


def texts(ctx):
    """messages given as text (not hex): the very text is what is signed"""
    rng = ctx.rng
    t = gen.text(rng) if rng.random() < .2 else ''.join(rng.choice('abc XYZ 0123\t\n\u00e9\u0301\u212b\ufeff\u00a0\U0001f600') for _ in range(rng.randrange(1, 40)))
    k = rng.randrange(5)
    if k == 0:
        t = rng.choice([' ', '\n', '\t', '\u00a0', '\0']) + t
    elif k == 1:
        t += rng.choice([' ', '\n', '\r\n', '\0', '\u3000'])
    elif k == 2:
        t = t.encode().hex()        # looks like hex, is not decoded
    elif k == 3:
        t = t[:len(t) // 2] + '?' + t[len(t) // 2:]
    m, d, pt, r, s = signed(ctx, t.encode())
    sig, pub = rs(r, s), forms(ctx, pt)
    lone = rng.choice('\ud800\udbff\udc00\udcff\udfff')       # no UTF-8 text holds these
    for why, u in [('the text', t), ('lone surrogate', rng.choice([t + lone, lone + t, t.replace('?', lone, 1) if '?' in t else lone]))] + rng.sample([('stripped', t.strip()), ('left', t.lstrip()), ('right', t.rstrip()), ('upper', t.upper()), ('lower', t.lower()), ('nfc', unicodedata.normalize('NFC', t)),
                                                  ('nfd', unicodedata.normalize('NFD', t)), ('folded', t.casefold()), ('one less', t[:-1]), ('one more', t + ' '), ('line end', t + '\n'), ('mark', '\ufeff' + t),
                                                  ('hex', t.encode().hex()), ('line ends', t.replace('\n', '\r\n')), ('zero', t + '\0'), ('no zero', t.replace('\0', ''))], 6):
        want = u == t
        got = verify(ctx, u, sig, pub, False)
        ctx.check('accepts-valid' if want else 'refuses-invalid', got is want, why, 'signed', repr(t), 'given', repr(u), 'gave', got)
        ctx.seen('text', why, want)


MINED = keys.mined('sha256')


def mined(ctx):
    """messages whose digest has unusual bytes"""
    mark, m = MINED[ctx.index % len(MINED)]
    m, d, pt, r, s = signed(ctx, m)
    judge(ctx, m, rs(r, s), pt, 'digest ' + mark, True)
    e = hashlib.sha256(m).digest()
    for how, t in (('front', e.lstrip(b'\0')), ('end', e.rstrip(b'\0'))):
        if t != e:
            r, s = R1.ecdsa_sign(int.from_bytes(t, 'big'), d, ctx.rng.randrange(1, N))
            judge(ctx, m, rs(r, s), pt, 'zeros cut off the digest: ' + how)


FAMILIES = [Family('mined', len(MINED), 5 * len(MINED), mined), Family('texts', 250, 8000, texts), Family('crafted', 500, 20000, crafted), Family('numbers', 150, 6000, numbers), Family('special_messages', 60, 2000, special_messages), Family('altered', 150, 6000, altered),
            Family('lengths', 150, 5000, lengths), Family('malformed', 250, 10000, malformed), Family('wrapped', 100, 2000, wrapped), Family('forged', 100, 4000, forged),
            Family('badmessage', 60, 1000, badmessage)]

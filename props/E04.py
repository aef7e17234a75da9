from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField

PROP = 'E04'
CURVES = [(oracle.R1, ECDSA.secp256r1), (oracle.K1, ECDSA.secp256k1)]


def num(rng, n):
    """1 .. n-1"""
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([1, 2, 3, n - 1, n - 2, n >> 1])
    if k == 1:
        return rng.getrandbits(rng.randrange(1, 200)) or 1
    if k == 2:
        return int.from_bytes(gen.special_bytes(rng, 32), 'big') % n or 1
    return rng.randrange(1, n)


def message(rng, n):
    return rng.choice([0, 1, n - 1, n, n + 1, (1 << 256) - 1, rng.getrandbits(300), rng.randrange(n), rng.randrange(n), rng.randrange(n), rng.getrandbits(30)])


def val(ctx, name, fn, *a):
    return ctx.returned('result-given', ctx.call(name, fn, *a))


def wrap(ctx, e, v):
    """number or field value"""
    return e.GFn.value(v) if ctx.rng.random() < .5 else v


def made(ctx, C, e):
    rng = ctx.rng
    while True:
        d, k, m = num(rng, C.n), num(rng, C.n), message(rng, C.n)
        r, s = C.ecdsa_sign(m, d, k)
        if r and s:
            return d, k, m, r, s


def verify(ctx, C, e, m, pt, r, s, why):
    want = 0 < r < C.n and 0 < s < C.n and C.ecdsa_valid(m, r, s, pt)
    got = val(ctx, 'verify', e.verify, wrap(ctx, e, m) if 0 <= m else m, e.Curve.point(*pt), wrap(ctx, e, r), wrap(ctx, e, s))
    ctx.check('accepts-valid' if want else 'refuses-invalid', bool(got) is want, C.name, why, 'm=%x r=%x s=%x' % (m, r, s), 'key %x %x' % pt, 'gave', got)
    ctx.seen(C.name, why, want)


def signing(ctx):
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    d, k, m, r, s = made(ctx, C, e)
    pub = val(ctx, 'calcpub', e.calcpub, wrap(ctx, e, d))
    pt = C.mul_g(d)
    ctx.equal('public-key', (pub.x.value, pub.y.value), pt, C.name, hex(d))
    R, S = val(ctx, 'sign', e.sign, wrap(ctx, e, m), wrap(ctx, e, d), wrap(ctx, e, k))
    ctx.equal('signature', (R.value, S.value), (r, s), C.name, 'd=%x k=%x m=%x' % (d, k, m))
    got = val(ctx, 'verify', e.verify, m, pub, R, S)
    ctx.check('own-signature-accepted', got is True, C.name, 'd=%x k=%x m=%x' % (d, k, m))
    ctx.seen(C.name, d.bit_length() // 16, k.bit_length() // 16, m.bit_length() // 16)


def refusing(ctx):
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    n = C.n
    d, k, m, r, s = made(ctx, C, e)
    pt = C.mul_g(d)
    cheap = [(0, 0), (0, s), (r, 0), (n, s), (r, n), (r + n, s), (r, s + n), (-r, s), (r, -s), (0, 1), (1, 0), (n, n), (2 * n, s), (1 << 256, s), (C.p, s)]
    for i, (a, b) in enumerate(cheap):
        verify(ctx, C, e, m, pt, a, b, 'range %d' % i)
    others = [('message', m + rng.choice([1, -1, 1 << rng.randrange(256)]), pt, r, s), ('message plus order', m + n, pt, r, s), ('negated', m, pt, r, n - s), ('swapped', m, pt, s, r),
              ('first', m, pt, (r + 1) % n or 1, s), ('second', m, pt, r, (s + 1) % n or 1), ('negated key', m, C.neg(pt), r, s), ('other key', m, C.mul_g(d + 1) or C.g, r, s),
              ('first negated', m, pt, n - r, s), ('one one', m, pt, 1, 1), ('zero message', 0, pt, r, s)]
    for why, mm, q, a, b in rng.sample(others, 3):
        verify(ctx, C, e, mm if mm >= 0 else 0, q, a, b, why)


def crafted(ctx):
    """signatures over arbitrary points: first numbers that wrapped around the order, short numbers, infinity"""
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    m = message(rng, C.n)
    R = None
    while R is None or R[0] % C.n == 0:
        R = C.lift_x(rng.choice([rng.randrange(C.n, C.p), rng.getrandbits(rng.randrange(1, 200)), rng.randrange(C.p)]), rng.getrandbits(1))
    s = num(rng, C.n)
    pt = C.craft(m, R, s)
    if pt is not None:
        verify(ctx, C, e, m, pt, R[0] % C.n, s, 'crafted, wrapped' if R[0] >= C.n else 'crafted')
    # a valid signature for a key of any shape: R = u1 G + u2 Q, s = r / u2, message u1 s
    v, Q = keys.shaped(rng, C.p), None
    while Q is None:
        Q = C.lift_y(v % C.p, rng.randrange(99)) if rng.random() < .5 else C.lift_x(v % C.p, rng.getrandbits(1))
        v += 1
    u1, u2 = num(rng, C.n), num(rng, C.n)
    R = C.add(C.mul_g(u1), C.mul(u2, Q))
    if R is not None and R[0] % C.n:
        r = R[0] % C.n
        s = r * pow(u2, -1, C.n) % C.n
        verify(ctx, C, e, u1 * s % C.n, Q, r, s, 'shaped key')
        verify(ctx, C, e, u1 * s % C.n, C.neg(Q), r, s, 'shaped key negated')
    r = num(rng, C.n)
    d = -m * pow(r, -1, C.n) % C.n
    if d:
        verify(ctx, C, e, m, C.mul_g(d), r, num(rng, C.n), 'sum is infinity')


def recover(ctx):
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    while True:
        d, k, m, r, s = made(ctx, C, e)
        R = C.mul_g(k)
        if R[0] < C.n:
            break
    pt = C.mul_g(d)
    flag = R[1] & 1
    got = val(ctx, 'findpk', e.findpk, wrap(ctx, e, m), wrap(ctx, e, r), wrap(ctx, e, s), flag)
    ctx.equal('recovered-key', (got.x.value, got.y.value), pt, C.name, 'd=%x k=%x m=%x' % (d, k, m))
    other = val(ctx, 'findpk', e.findpk, m, r, s, 1 - flag)
    want = C.craft(m, C.neg(R), s)
    ctx.equal('recovered-other-key', (other.x.value, other.y.value), want if want else (0, 0), C.name)
    ctx.seen(C.name, flag, d.bit_length() // 32)


def recover_two(ctx):
    """two signatures of one message by one key"""
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    while True:
        d, k1, m, r1, s1 = made(ctx, C, e)
        k2 = num(rng, C.n)
        r2, s2 = C.ecdsa_sign(m, d, k2)
        R1, R2 = C.mul_g(k1), C.mul_g(k2)
        if r2 and s2 and r1 != r2 and R1[0] < C.n and R2[0] < C.n:
            break
    f = (lambda v: e.GFn.value(v)) if rng.random() < .6 else (lambda v: v)
    got = val(ctx, 'findpk2', e.findpk2, f(r1), f(s1), f(r2), f(s2), R1[1] & 1, R2[1] & 1)
    ctx.equal('recovered-key', (got.x.value, got.y.value), C.mul_g(d), C.name, 'd=%x k1=%x k2=%x m=%x' % (d, k1, k2, m))
    ctx.seen(C.name, R1[1] & 1, R2[1] & 1)


def crack(ctx):
    """two signatures sharing a secret; one signature with its secret"""
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    for _ in range(4):
        d, k, m1, r, s1 = made(ctx, C, e)
        x = val(ctx, 'crack1', e.crack1, wrap(ctx, e, r), wrap(ctx, e, s1), wrap(ctx, e, m1), wrap(ctx, e, k))
        ctx.equal('recovered-private-key', x.value, d, C.name)
        m2 = message(rng, C.n)
        _r, s2 = C.ecdsa_sign(m2, d, k)
        if (m1 - m2) % C.n == 0 or not s2:
            continue
        f = (lambda v: e.GFn.value(v)) if rng.random() < .6 else (lambda v: v)
        sec, x = val(ctx, 'crack2', e.crack2, f(r), f(s1), f(s2), f(m1), f(m2))
        ctx.equal('recovered-secret', sec.value, k, C.name, 'd=%x k=%x m1=%x m2=%x' % (d, k, m1, m2))
        ctx.equal('recovered-private-key', x.value, d, C.name)
        ctx.seen(C.name, m1 > m2, s1 > s2)


PRIMES = [q for q in range(3, 230) if all(q % d for d in range(2, q))]


def small_curve(rng, top=1000):
    """a curve over a small field whose group has prime order, all multiples of its generator listed by repeated addition"""
    while True:
        p = rng.choice([q for q in PRIMES if 5 <= q < min(200, 2 * top) and q % 8 != 1])
        a, b = rng.choice([0, p - 3, rng.randrange(p)]), rng.randrange(1, p)
        if (4 * a ** 3 + 27 * b * b) % p == 0:
            continue
        C = oracle.Curve('p=%d a=%d b=%d' % (p, a, b), p, a, b, 0, 0, 0)
        pts = [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
        n = len(pts) + 1
        if n < 5 or n > top or any(n % d == 0 for d in range(2, n)):
            continue
        C.n, C.g = n, rng.choice(pts)
        C.name += ' n=%d g=%r' % (n, C.g)
        table = [None]
        while len(table) < n:
            table.append(C.add(table[-1], C.g))
        if C.add(table[-1], C.g) is not None or len(set(table)) != n:
            raise AssertionError('reference table')
        return C, table


def small_group(ctx):
    """a group small enough to try every signature: each (message, first, second) for a key"""
    rng = ctx.rng
    C, table = small_curve(rng)
    n, p = C.n, C.p
    ec = EllipticCurve(FiniteField(p), C.a, C.b)
    e = ECDSA(ec, ec.point(*C.g), n)
    xs = [None if q is None else q[0] % n for q in table]
    d = rng.randrange(1, n)
    pub = val(ctx, 'calcpub', e.calcpub, wrap(ctx, e, d))
    ctx.equal('public-key', (pub.x.value, pub.y.value), table[d], C.name, d)
    msgs = [0, n, rng.randrange(n), rng.randrange(3 * n)]
    for m in msgs:
        for r in ([0, n, -1] + rng.sample(range(1, n), min(8, n - 1))):
            for s in [0, n, -1] + (list(range(1, n)) if n < 40 else rng.sample(range(1, n), 24)):
                want = 0 < r < n and 0 < s < n and xs[(m + d * r) * pow(s, -1, n) % n] == r
                got = val(ctx, 'verify', e.verify, m, pub, r, s)
                ctx.check('accepts-valid' if want else 'refuses-invalid', got is want, C.name, 'd=%d m=%d r=%d s=%d' % (d, m, r, s), 'gave', got)
        for k in rng.sample(range(1, n), min(n - 1, 12)):
            r, s = xs[k], (m + d * xs[k]) * pow(k, -1, n) % n
            if not r or not s:
                continue
            R, S = val(ctx, 'sign', e.sign, wrap(ctx, e, m), wrap(ctx, e, d), wrap(ctx, e, k))
            ctx.equal('signature', (R.value, S.value), (r, s), C.name, 'd=%d k=%d m=%d' % (d, k, m))
            ctx.check('own-signature-accepted', val(ctx, 'verify', e.verify, m, pub, R, S) is True, C.name, 'd=%d k=%d m=%d' % (d, k, m))
            got = val(ctx, 'crack1', e.crack1, R, S, m, k)
            ctx.equal('recovered-private-key', got.value, d, C.name, 'k=%d m=%d' % (k, m))
            m2 = rng.randrange(n)
            s2 = (m2 + d * r) * pow(k, -1, n) % n
            if (m - m2) % n:
                sec, got = val(ctx, 'crack2', e.crack2, r, s, s2, m, m2)
                ctx.equal('recovered-secret', (sec.value, got.value), (k, d), C.name, 'm=%d m2=%d' % (m, m2))
            if table[k][0] < n:
                flag = table[k][1] & 1
                for f in (flag, 1 - flag):
                    got = val(ctx, 'findpk', e.findpk, wrap(ctx, e, m), R, S, f)
                    kk = k if f == flag else n - k
                    want = table[(s * kk - m) * pow(r, -1, n) % n]
                    ctx.equal('recovered-key', (got.x.value, got.y.value), want or (0, 0), C.name, 'd=%d k=%d m=%d flag=%d' % (d, k, m, f))
                k2 = rng.randrange(1, n)
                r2, s2 = xs[k2], (m + d * xs[k2]) * pow(k2, -1, n) % n
                if r2 and s2 and table[k2][0] < n and r2 != r:
                    got = val(ctx, 'findpk2', e.findpk2, r, s, r2, s2, flag, table[k2][1] & 1)
                    ctx.equal('recovered-key', (got.x.value, got.y.value), table[d], C.name, 'd=%d k=%d k2=%d m=%d' % (d, k, k2, m))
    ctx.seen(p, n, n > p)


def every_signature(ctx):
    """a group so small that every (message, first, second) is tried, coincidences such as message = first = -key included"""
    rng = ctx.rng
    C, table = small_curve(rng, 24)
    n = C.n
    ec = EllipticCurve(FiniteField(C.p), C.a, C.b)
    e = ECDSA(ec, ec.point(*C.g), n)
    xs = [None if q is None else q[0] % n for q in table]
    d = rng.choice([1, n - 1, rng.randrange(1, n), rng.randrange(1, n)])
    pub = val(ctx, 'calcpub', e.calcpub, d)
    ctx.equal('public-key', (pub.x.value, pub.y.value), table[d], C.name, d)
    accepted = 0
    for m in range(n) if n < 12 else rng.sample(range(n), 3):
        for r in range(n):
            for s in range(n) if n < 12 else {1, n - 1, r, n - r, m, (n - m) % n, d, n - d, rng.randrange(n)}:
                want = r > 0 and 0 < s < n and xs[(m + d * r) * pow(s, -1, n) % n] == r
                got = val(ctx, 'verify', e.verify, m, pub, r, s)
                accepted += want
                ctx.check('accepts-valid' if want else 'refuses-invalid', got is want, C.name, 'd=%d m=%d r=%d s=%d' % (d, m, r, s), 'gave', got)
    ctx.seen(C.p, n, d in (1, n - 1), accepted > 0)


FAMILIES = [Family('signing', 160, 6000, signing), Family('refusing', 64, 2400, refusing), Family('crafted', 64, 2400, crafted), Family('recover', 48, 2000, recover),
            Family('recover_two', 48, 2000, recover_two), Family('crack', 500, 12000, crack), Family('small_group', 100, 6000, small_group),
            Family('every_signature', 60, 3000, every_signature)]

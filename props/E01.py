from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField

PROP = 'E01'
CURVES = [(oracle.R1, ECDSA.secp256r1), (oracle.K1, ECDSA.secp256k1)]
PRIMES = [oracle.R1.p, oracle.R1.n, oracle.K1.p, oracle.K1.n]
# every class modulo 8 that has square roots here: 3, 5 and 7
ROOT_PRIMES = [oracle.R1.p, oracle.K1.p, oracle.R1.p, oracle.K1.p, 2 ** 255 - 19, 3, 7, 11, 13, 29, 37, 101, 103, 1000003, 2 ** 127 - 1]


def xy(pt):
    return pt if pt is not None else (0, 0)


def is_pt(ctx, C, got, want, *what):
    ctx.check('group-law', (got.x.value, got.y.value) == xy(want), C.name, *what, 'gave', got, 'expected', '%x %x' % xy(want))
    on = got.isoncurve()
    ctx.check('on-curve', on is True and C.on_curve(want), C.name, *what)
    ctx.check('infinity', got.IsInfinity is (want is None) and bool(got.iszero()) is (want is None), C.name, *what)


def point(rng, C, ec):
    """(reference point, object): small multiples, random points, points with small x"""
    k = rng.randrange(7)
    if k == 6:
        v, pt = keys.shaped(rng, C.p), None
        while pt is None:
            pt = C.lift_y(v, rng.randrange(99))
            v += 1
    elif k == 0:
        pt = C.mul_g(rng.choice([0, 1, 2, 3, C.n - 1, C.n - 2]))
    elif k == 1:
        pt = None
        while pt is None:
            pt = C.lift_x(rng.getrandbits(rng.randrange(1, 256)) % C.p, rng.getrandbits(1))
    else:
        pt = C.mul_g(rng.randrange(C.n) if k < 4 else rng.randrange(50))
    return pt, ec.point(*xy(pt))


def op(ctx, name, fn, *a):
    return ctx.returned('operation-given', ctx.call(name, fn, *a))


def group(ctx):
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    ec = make().Curve
    ec2 = make().Curve                       # another object for the same curve
    for _ in range(3):
        p, P = point(rng, C, ec)
        k = rng.randrange(6)
        if k == 0:
            q = p
        elif k == 1:
            q = C.neg(p)
        elif k == 2:
            q = C.add(p, p)
        else:
            q = point(rng, C, ec)[0]
        Q = (ec if rng.random() < .7 else ec2).point(*xy(q))
        if k == 0 and rng.random() < .5:
            Q = P
        is_pt(ctx, C, op(ctx, 'P+Q', lambda: P + Q), C.add(p, q), 'sum')
        is_pt(ctx, C, op(ctx, 'Q+P', lambda: Q + P), C.add(p, q), 'sum')
        is_pt(ctx, C, op(ctx, 'P-Q', lambda: P - Q), C.add(p, C.neg(q)), 'difference')
        is_pt(ctx, C, op(ctx, 'P+P', lambda: P + P), C.add(p, p), 'double')
        is_pt(ctx, C, op(ctx, '-P', lambda: -P), C.neg(p), 'negation')
        is_pt(ctx, C, op(ctx, '-(-P)', lambda: -(-P)), p, 'negation twice')
        is_pt(ctx, C, op(ctx, 'P-P', lambda: P - P), None, 'P-P')
        is_pt(ctx, C, op(ctx, 'P+0', lambda: P + ec.Infinity), p, 'plus infinity')
        is_pt(ctx, C, op(ctx, '0+P', lambda: ec.zero() + P), p, 'plus infinity')
        is_pt(ctx, C, op(ctx, '0-P', lambda: ec.Infinity - P), C.neg(p), 'from infinity')
        ctx.check('comparison', (P == Q) is (p == q) and (P != Q) is (p != q), C.name)
        ctx.check('operands-unchanged', (P.x.value, P.y.value) == xy(p) and (Q.x.value, Q.y.value) == xy(q))
        ctx.seen(C.name, k, p is None, q is None, p == q)


def small_multiples(ctx):
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    ec = e.Curve
    p, P = point(rng, C, ec)
    for _ in range(4):
        k = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, rng.randrange(300), rng.getrandbits(rng.randrange(1, 24)), (1 << rng.randrange(1, 24)) - 1])
        k = -k if rng.random() < .3 else k
        s = k if k < 0 or rng.random() < .6 else rng.choice([e.GFn.value(k), ec.field.value(k)])
        is_pt(ctx, C, op(ctx, 'P*k', lambda: P * s), C.mul(k, p) if p else None, 'times', str(k))
        is_pt(ctx, C, op(ctx, 'mul', ec.mul, P, s), C.mul(k, p) if p else None, 'times', str(k))
        ctx.seen(C.name, k)
    ctx.check('operands-unchanged', (P.x.value, P.y.value) == xy(p))


def multiples(ctx):
    """full-size, boundary, negative and oversized scalars"""
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    e = make()
    n = C.n
    k = rng.choice([n, n - 1, n + 1, n - 2, n + 2, 2 * n, 2 * n + 1, -n, 1 - n, -1, -2, n >> 1, (n >> 1) + 1, C.p, 1 << 255, 1 << 256, (1 << 256) - 1, rng.getrandbits(300), -rng.getrandbits(256),
                    rng.randrange(n), rng.randrange(n), rng.randrange(n), keys.scalar(rng), int.from_bytes(gen.special_bytes(rng, 32), 'big'), (1 << 53) + 1, (1 << rng.randrange(50, 70)) + rng.randrange(-2, 3),
                    rng.getrandbits(64) | 1])
    if ctx.index % 10 in (3, 4, 7):
        k = gen.runs(rng, rng.choice([256, 256, 320]))
    if ctx.index % 8 == 0:
        k = rng.getrandbits(rng.choice([257, 320, 384, 512, 600, 1030]))
    if rng.random() < .25:
        k = -k
    if rng.random() < .5:
        p, P = C.g, e.G
    else:
        p, P = point(rng, C, e.Curve)
    s = e.GFn.value(k) if 0 <= k < n and rng.random() < .5 else k
    is_pt(ctx, C, op(ctx, 'P*k', lambda: P * s), C.mul(k, p) if p else None, 'times', hex(k))
    ctx.seen(C.name, k.bit_length(), k < 0, k & 7)
    if ctx.index % 4 == 0 and k % n:
        d = e.GFn.value(k % n)
        is_pt(ctx, C, op(ctx, 'P/k', lambda: P / d), C.mul(pow(k, -1, n), p) if p else None, 'divided by', hex(k))


def walks(ctx):
    """accumulating: running sums stay on the curve and agree"""
    rng = ctx.rng
    C, make = CURVES[ctx.index % 2]
    ec = make().Curve
    acc, ACC = None, ec.zero()
    for _ in range(25):
        p, P = point(rng, C, ec)
        k = rng.randrange(4)
        if k == 0:
            acc, ACC = C.add(acc, p), op(ctx, 'ACC+P', lambda: ACC + P)
        elif k == 1:
            acc, ACC = C.add(acc, C.neg(p)), op(ctx, 'ACC-P', lambda: ACC - P)
        elif k == 2:
            acc, ACC = C.add(acc, acc), op(ctx, 'ACC+ACC', lambda: ACC + ACC)
        else:
            acc, ACC = C.neg(acc), op(ctx, '-ACC', lambda: -ACC)
        is_pt(ctx, C, ACC, acc, 'running sum')
        ctx.seen(C.name, k, acc is None)


def generators(ctx):
    C, make = CURVES[ctx.index % 2]
    e = op(ctx, make.__name__, make)
    is_pt(ctx, C, e.G, C.g, 'base point')
    ctx.check('parameters', e.Curve.field.p == C.p and e.GFn.p == C.n and e.Curve.a.value % C.p == C.a and e.Curve.b.value % C.p == C.b, C.name)
    is_pt(ctx, C, e.Curve.Infinity, None, 'infinity')
    rng = ctx.rng
    for _ in range(20):
        x, y = rng.randrange(C.p), rng.randrange(C.p)
        if rng.random() < .5:
            pt = C.mul_g(rng.randrange(1, 1000))
            x, y = rng.choice([(pt[0], pt[1] ^ 1), (pt[1], pt[0]), (pt[0] ^ 1, pt[1]), (pt[0], 0), (0, pt[1]), pt])
        got = op(ctx, 'isoncurve', e.Curve.point(x, y).isoncurve)
        want = C.on_curve((x, y)) or (x, y) == (0, 0)
        ctx.check('on-curve-decision', bool(got) is want, C.name, hex(x), hex(y))
        ctx.seen(C.name, want)


def elem(rng, p):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, 2, p - 1, p - 2, p >> 1, (p >> 1) + 1]) % p
    if k == 1:
        return rng.randrange(300) % p
    if k == 2:
        return rng.getrandbits(rng.randrange(1, 256)) % p
    if k == 3:
        return int.from_bytes(gen.special_bytes(rng, 32), 'big') % p
    return rng.randrange(p)


def field(ctx):
    rng = ctx.rng
    p = rng.choice(PRIMES)
    F = FiniteField(p) if rng.random() < .5 else [ECDSA.secp256r1().Curve.field, ECDSA.secp256r1().GFn, ECDSA.secp256k1().Curve.field, ECDSA.secp256k1().GFn][PRIMES.index(p)]
    for _ in range(6):
        a, b = elem(rng, p), elem(rng, p)
        A = F.value(a)
        side = rng.randrange(3)                 # value op value, value op int, int op value
        lhs = a if side == 2 else A
        rhs = b if side == 1 else F.value(b)
        if side == 1 and rng.random() < .3:
            b = rng.choice([b + p, b - p, b + 5 * p, b - 7 * p, b + p * rng.getrandbits(rng.randrange(1, 900)), b - p * rng.getrandbits(rng.randrange(1, 900))])       # integers outside 0..p-1
            rhs = b
        if side == 2 and rng.random() < .3:
            a = rng.choice([a + p, a - p, a + 5 * p, a - 7 * p, a + p * rng.getrandbits(rng.randrange(1, 900)), a - p * rng.getrandbits(rng.randrange(1, 900))])
            lhs = a

        def same(name, fn, want):
            got = op(ctx, name, fn)
            ctx.check('field-arithmetic', type(got).__name__ == 'Value' and got.value == want % p, name, 'side %d' % side, hex(a), hex(b), got, 'expected', hex(want % p))
            back = got.field.p == p
            ctx.check('field-arithmetic', back, name)
        same('a+b', lambda: lhs + rhs, a + b)
        same('a-b', lambda: lhs - rhs, a - b)
        same('a*b', lambda: lhs * rhs, a * b)
        if b % p:
            same('a/b', lambda: lhs / rhs, a * pow(b, -1, p))
            inv = op(ctx, 'inverse', F.value(b).inverse)
            ctx.check('inverse', F.integer(inv) * b % p == 1, hex(b), inv)
        e = rng.choice([0, 1, 2, 3, 5, p - 1, p - 2, p, p + 1, 2 * p - 1, rng.randrange(1000), rng.getrandbits(200), rng.getrandbits(257), rng.getrandbits(700)])
        if side == 2:
            same('a**e', lambda: lhs ** F.value(e), pow(a, e, p))
        else:
            same('a**e', lambda: lhs ** e, pow(a, e, p))
            if a % p:
                same('a**-e', lambda: lhs ** -e, pow(a, -e, p))
        same('-b', lambda: -F.value(b % p), -b)
        eq = op(ctx, 'a==b', lambda: F.value(a % p) == (b if side == 1 else F.value(b % p)))
        ctx.check('comparison', eq is ((a - b) % p == 0), hex(a), hex(b))
        ctx.check('comparison', (F.value(b % p) == F.value(b % p)) is True and (F.value(b % p) != F.value(b % p)) is False and F.value(b % p).iszero() is (b % p == 0))
        ctx.check('operands-unchanged', A.value == elem_value(A))
        ctx.seen(PRIMES.index(p), side, a.bit_length() // 32, b.bit_length() // 32)


def elem_value(v):
    return v.field.integer(v)


def roots(ctx):
    rng = ctx.rng
    p = rng.choice(ROOT_PRIMES)
    F = FiniteField(p)
    for _ in range(4):
        a = elem(rng, p)
        sq = a * a % p
        for flag in (0, 1):
            r = op(ctx, 'sqrt', F.value(sq).sqrt, flag)
            ctx.check('square-root', 0 <= r.value < p and r.value * r.value % p == sq and (sq == 0 or r.value % 2 == flag), 'p=%d' % p, 'root of', sq, 'flag', flag, r)
        ctx.seen(p, sq.bit_length() // 16)


def identities(ctx):
    """field values built in long chains agree with integers"""
    rng = ctx.rng
    p = rng.choice(PRIMES)
    F = FiniteField(p)
    v, V = (1, F.one()) if rng.random() < .5 else (0, F.zero())
    ctx.check('field-arithmetic', F.zero().field.p == p == F.one().field.p, 'field of the constants')
    ctx.check('field-arithmetic', F.zero().value == 0 and F.one().value == 1)
    for _ in range(30):
        b = elem(rng, p)
        k = rng.randrange(9)
        f = [lambda: V + b, lambda: V - b, lambda: V * b, lambda: V ** (b % 7), lambda: -V, lambda: b - V, lambda: V + F.zero(), lambda: F.one() * V, lambda: F.zero() - V][k]
        w = [v + b, v - b, v * b, pow(v, b % 7, p), -v, b - v, v, v, -v][k]
        v, V = w % p, op(ctx, 'chain', f)
        ctx.check('field-arithmetic', V.value == v, 'chain step', k)
        ctx.seen(k)


SMALL = [q for q in range(3, 98) if all(q % d for d in range(2, q))]


def small_fields(ctx):
    """every pair of elements of a small field"""
    p = SMALL[ctx.index % len(SMALL)]
    F = FiniteField(p)
    vals = [F.value(i) for i in range(p)]
    rng = ctx.rng
    for a in (range(p) if p < 24 else rng.sample(range(p), 12)):
        for b in range(p):
            A, B = vals[a], vals[b] if rng.random() < .7 else b + p * rng.choice([0, 0, 1, -1, 5])
            for name, f, want in (('+', lambda: A + B, a + b), ('-', lambda: A - B, a - b), ('*', lambda: A * B, a * b), ('int +', lambda: b + A, a + b), ('int -', lambda: b - A, b - a),
                                  ('int *', lambda: b * A, a * b), ('**', lambda: A ** b, a ** b)):
                r = op(ctx, name, f)
                ctx.check('field-arithmetic', r.value == want % p, 'p=%d' % p, a, name, b, 'gave', r.value)
            if b:
                r = op(ctx, '/', lambda: A / B)
                ctx.check('field-arithmetic', 0 <= r.value < p and r.value * b % p == a, 'p=%d' % p, a, '/', b, 'gave', r.value)
            if a:
                r = op(ctx, 'int /', lambda: b / A)
                ctx.check('field-arithmetic', 0 <= r.value < p and r.value * a % p == b, 'p=%d' % p, b, '/', a, 'gave', r.value)
            ctx.check('field-arithmetic', (A == B) is (a == b) and (A != B) is (a != b), 'p=%d' % p, a, '==', b)
        ctx.check('field-arithmetic', op(ctx, 'neg', lambda: -A).value == -a % p, 'p=%d' % p, '-', a)
        if a:
            ctx.check('inverse', op(ctx, 'inverse', A.inverse) * a % p == 1, 'p=%d' % p, a)
        if p % 8 != 1:
            for flag in (0, 1):
                sq = a * a % p
                r = op(ctx, 'sqrt', F.value(sq).sqrt, flag)
                ctx.check('square-root', 0 <= r.value < p and r.value * r.value % p == sq and (sq == 0 or r.value % 2 == flag), 'p=%d' % p, 'root of', sq, 'flag', flag, r)
        ctx.seen(p, a)


def small_curves(ctx):
    """the whole group of a small curve, points of order two and three included"""
    rng = ctx.rng
    p = rng.choice([q for q in SMALL if 5 <= q < 44])
    while True:
        a, b = rng.choice([0, 1, p - 3, rng.randrange(p)]), rng.randrange(1, p)
        if (4 * a ** 3 + 27 * b * b) % p:
            break
    C = oracle.Curve('p=%d a=%d b=%d' % (p, a, b), p, a, b, 0, 0, 0)
    pts = [None] + [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
    F = FiniteField(p)
    ec = EllipticCurve(F, a, b)
    objs = {q: ec.point(*xy(q)) for q in pts}
    for s in rng.sample(pts, min(len(pts), 7)):
        for t in pts:
            is_pt(ctx, C, op(ctx, '+', lambda: objs[s] + objs[t]), C.add(s, t), '+')
            is_pt(ctx, C, op(ctx, '-', lambda: objs[s] - objs[t]), C.add(s, C.neg(t)), '-')
            ctx.check('comparison', (objs[s] == objs[t]) is (s == t))
        is_pt(ctx, C, op(ctx, 'neg', lambda: -objs[s]), C.neg(s), 'neg')
        acc = None
        for k in range(0, len(pts) + 3):
            if k < 6 or rng.random() < .4:
                is_pt(ctx, C, op(ctx, '*', lambda: objs[s] * k), acc, '*', k)
                is_pt(ctx, C, op(ctx, '*', lambda: objs[s] * -k), C.neg(acc), '*', -k)
            acc = C.add(acc, s)
        order, t = 1, s
        while t is not None:
            order, t = order + 1, C.add(t, s)
        for i in range(7):
            k = rng.choice([8, 16, 31, 33, 64, 65, 255, 256, 257, 300, 512, 1500])
            k = (rng.getrandbits(k) if i < 3 else gen.runs(rng, max(k, 64))) * rng.choice([1, -1])
            t = None
            for _ in range(k % order):
                t = C.add(t, s)
            is_pt(ctx, C, op(ctx, '*', lambda: objs[s] * k), t, '*', hex(k))
            is_pt(ctx, C, op(ctx, 'mul', lambda: ec.mul(objs[s], k)), t, 'mul', hex(k))
        ctx.seen(p, a, len(pts), s is None, s is not None and s[1] == 0)
    for x in range(p):
        for y in rng.sample(range(p), min(p, 6)):
            if x or y:
                ctx.check('on-curve-decision', ec.point(x, y).isoncurve() is ((x, y) in objs), C.name, x, y)
    for q in pts:
        ctx.check('operands-unchanged', (objs[q].x.value, objs[q].y.value) == xy(q))


FAMILIES = [Family('group', 800, 40000, group), Family('small_multiples', 400, 16000, small_multiples), Family('multiples', 240, 10000, multiples), Family('walks', 100, 4000, walks),
            Family('generators', 40, 400, generators), Family('field', 2500, 100000, field), Family('roots', 1500, 50000, roots), Family('identities', 500, 10000, identities), Family('small-fields', len(SMALL) * 2, len(SMALL) * 40, small_fields), Family('small-curves', 300, 12000, small_curves)]

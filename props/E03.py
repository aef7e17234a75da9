import operator
from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from neocore.KeyPair import KeyPair

PROP = 'E03'
R1, K1 = oracle.R1, oracle.K1
OPS = [('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge), ('==', operator.eq), ('!=', operator.ne)]


def near(rng, x):
    """abscissa close to x in some byte"""
    k = rng.randrange(5)
    if k == 0:
        return (x + rng.choice([1, -1, 2, -2, rng.randrange(-300, 300)])) % R1.p
    if k == 1:
        return x ^ (1 << rng.randrange(256))
    if k == 2:
        b = bytearray(oracle.b32(x))
        b[rng.randrange(32)] = rng.getrandbits(8)
        return int.from_bytes(b, 'big') % R1.p
    if k == 3:
        return x >> 8 * rng.randrange(1, 31)
    return int.from_bytes(oracle.b32(x)[::-1], 'big') % R1.p


def lift(rng, x):
    """the point with the next abscissa from x on"""
    while True:
        pt = R1.lift_x(x % R1.p, rng.getrandbits(1))
        if pt:
            return pt
        x += 1


def pair(rng):
    a = lift(rng, int.from_bytes(gen.special_bytes(rng, 32), 'big')) if rng.random() < .5 else R1.mul_g(rng.randrange(1, R1.n))
    if rng.random() < .2:
        a = keys.shaped_point(rng)
    k = rng.randrange(13) % 7
    if k == 6:
        # a point and its negative whose y coordinates are next to one another, or far apart
        e = rng.choice([rng.randrange(40), 1 << rng.randrange(200)])
        b = R1.lift_y(rng.choice([(R1.p - 1) // 2 - e, 1 + e]), rng.randrange(99)) or a
        return b, R1.neg(b), k
    if k == 5:
        # one y, two points
        b = R1.lift_y(a[1], rng.randrange(99))
        return a, b or keys.shaped_point(rng), k
    if k == 0:
        return a, a, k
    if k == 1:
        return a, R1.neg(a), k
    if k == 2:
        return a, R1.mul_g(rng.randrange(1, R1.n)), k
    return a, lift(rng, near(rng, a[0])), k


def obj(rng, pt, curve):
    k = rng.randrange(4)
    if k == 0:
        return ECDSA.decode_secp256r1(oracle.compress(pt), unhex=False).G
    return (curve if k == 1 else ECDSA.secp256r1().Curve).point(*pt)


def pairs(ctx):
    rng = ctx.rng
    curve = ECDSA.secp256r1().Curve
    for _ in range(3):
        a, b, k = pair(rng)
        A = obj(rng, a, curve)
        B = A if a == b and rng.random() < .3 else obj(rng, b, curve)
        for x, X, y, Y in ((a, A, b, B), (b, B, a, A)):
            for name, op in OPS:
                got = ctx.returned('comparison', ctx.call(name, op, X, Y))
                ctx.check('comparison', got is op(x, y), '%x,%x %s %x,%x' % (x + (name,) + y), 'gave', got)
        ctx.check('exactly-one', [A < B, A == B, A > B].count(True) == 1 and [A < B, A == B, A > B].count(False) == 2)
        ctx.check('operands-unchanged', (A.x.value, A.y.value) == a and (B.x.value, B.y.value) == b)
        ctx.seen(k, a < b, a[0] == b[0], (a[0] ^ b[0]).bit_length() // 8)


def lists(ctx):
    rng = ctx.rng
    curve = ECDSA.secp256r1().Curve
    pts = []
    for _ in range(rng.randrange(1, 10)):
        a, b, _k = pair(rng)
        pts += [a, b]
    want = sorted(pts)
    objs = [obj(rng, p, curve) for p in pts]
    for rev in (False, True):
        for _ in range(2):
            rng.shuffle(objs)
            got = ctx.returned('sorted', ctx.call('sorted', sorted, objs, reverse=rev))
            ctx.equal('sorted', [(o.x.value, o.y.value) for o in got], want[::-1] if rev else want)
    lo, hi = min(objs), max(objs)
    ctx.check('sorted', (lo.x.value, lo.y.value) == want[0] and (hi.x.value, hi.y.value) == want[-1], 'min and max')
    ctx.seen(len(pts), len(set(pts)) == len(pts))


def key_pairs(ctx):
    """public keys of key pairs, as a multi-signature script would sort them"""
    rng = ctx.rng
    ks = [keys.key(rng) for _ in range(rng.randrange(2, 5))]
    ks += [oracle.b32(R1.n - int.from_bytes(ks[0], 'big'))]          # same x
    objs = [ctx.returned('comparison', ctx.call('KeyPair', KeyPair, k)).PublicKey for k in ks]
    want = sorted(map(oracle.pub_of, ks))
    got = ctx.returned('sorted', ctx.call('sorted', sorted, objs))
    ctx.equal('sorted', [(o.x.value, o.y.value) for o in got], want)
    ctx.seen(len(ks), keys.kind(ks[0]))


def triples(ctx):
    """transitivity over close points"""
    rng = ctx.rng
    curve = ECDSA.secp256r1().Curve
    a, b, _k = pair(rng)
    pts = [a, b, lift(rng, near(rng, b[0])), R1.neg(a)]
    objs = [obj(rng, p, curve) for p in pts]
    for X in objs:
        for Y in objs:
            for Z in objs:
                if ctx.call('<=', operator.le, X, Y).value and ctx.call('<=', operator.le, Y, Z).value:
                    ctx.check('transitive', ctx.returned('comparison', ctx.call('<=', operator.le, X, Z)) is True, X, Y, Z)
    ctx.seen('triple', len(set(pts)))


def infinity(ctx):
    """the point at infinity is below every key"""
    rng = ctx.rng
    curve = ECDSA.secp256r1().Curve
    inf = rng.choice([lambda: curve.Infinity, lambda: curve.point(0, 0), lambda: ECDSA.decode_secp256r1(b'\0', unhex=False).G, lambda: curve.point(5, R1.lift_x(5, 0)[1]) * 0])()
    a, b, _k = pair(rng)
    if ctx.index < 4:
        a = lift(rng, ctx.index)
    for pt in (a, b, (0, 0)):
        X = obj(rng, pt, curve) if pt != (0, 0) else curve.Infinity
        for x, A, y, B in (((0, 0), inf, pt, X), (pt, X, (0, 0), inf)):
            for name, op in OPS:
                got = ctx.returned('comparison', ctx.call(name, op, A, B))
                ctx.check('comparison', got is op(x, y), 'infinity' if A is inf else x, name, 'infinity' if B is inf else y, 'gave', got)
    objs = [obj(rng, a, curve), inf, obj(rng, b, curve), inf]
    rng.shuffle(objs)
    got = ctx.returned('sorted', ctx.call('sorted', sorted, objs))
    ctx.equal('sorted', [(o.x.value, o.y.value) for o in got], sorted([a, b, (0, 0), (0, 0)]))
    ctx.seen('infinity', a[0].bit_length() // 8)


def small_curves(ctx):
    """every pair of points of small curves, every sort order of a few"""
    rng = ctx.rng
    p = rng.choice([5, 7, 11, 13, 17, 19, 23, 29])
    while True:
        a, b = rng.choice([0, 1, p - 3, rng.randrange(p)]), rng.randrange(1, p)
        if (4 * a ** 3 + 27 * b * b) % p:
            break
    pts = [(0, 0)] + [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
    ec = EllipticCurve(FiniteField(p), a, b)
    objs = [(q, ec.point(*q)) for q in pts]
    for x, X in objs:
        for y, Y in objs:
            for name, op in OPS:
                got = ctx.returned('comparison', ctx.call(name, op, X, Y))
                ctx.check('comparison', got is op(x, y), '%d,%d %s %d,%d' % (x + (name,) + y), 'modulo', p, 'gave', got)
    os = [o for _, o in objs]
    rng.shuffle(os)
    ctx.equal('sorted', [(o.x.value, o.y.value) for o in ctx.returned('sorted', ctx.call('sorted', sorted, os))], sorted(pts))
    ctx.seen('small', p, a, len(pts))


FAMILIES = [Family('small_curves', 60, 1500, small_curves), Family('infinity', 400, 8000, infinity), Family('pairs', 3000, 100000, pairs), Family('lists', 700, 20000, lists), Family('key_pairs', 300, 10000, key_pairs), Family('triples', 200, 5000, triples)]

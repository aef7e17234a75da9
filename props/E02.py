import io
import re
from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.ECCurve import ECDSA
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.KeyPair import KeyPair

PROP = 'E02'
R1, K1 = oracle.R1, oracle.K1
P, N = R1.p, R1.n
b32 = oracle.b32


def pt_of(v):
    """coordinates of a decoding result (an ECDSA object or a point)"""
    g = v.G if hasattr(v, 'G') else v
    return g.x.value, g.y.value


def raw(o):
    return bytes.fromhex(bytes(o).decode())


def decoders(data):
    """every decoding entry that takes these bytes: (name, call)"""
    out = [('decode(hex text)', lambda: ECDSA.decode_secp256r1(data.hex())), ('decode(hex bytes)', lambda: ECDSA.decode_secp256r1(data.hex().encode())),
           ('decode(HEX)', lambda: ECDSA.decode_secp256r1(data.hex().upper())), ('decode(raw)', lambda: ECDSA.decode_secp256r1(data, unhex=False)),
           ('decode(raw bytearray)', lambda: ECDSA.decode_secp256r1(bytearray(data), unhex=False)), ('FromBytes', lambda: ECDSA.FromBytes_Secp256r1(data)),
           ('FromBytes(bytearray)', lambda: ECDSA.FromBytes_Secp256r1(bytearray(data)))]
    return out


def point(rng):
    k = rng.randrange(11)
    if k > 7:
        return keys.shaped_point(rng)
    if k == 0:
        return R1.mul_g(rng.choice([1, 2, 3, N - 1, N - 2]))
    if k == 1:
        return oracle.pub_of(rng.choice(keys.mined_keys())[1])
    pt = None
    while pt is None:
        if k == 2:
            x = rng.getrandbits(rng.randrange(1, 256)) % P          # leading zero bytes
        elif k == 3:
            x = (rng.getrandbits(256) >> 8 * rng.randrange(1, 9) << 8 * rng.randrange(1, 9)) % P
        elif k == 4:
            x = P - 1 - rng.getrandbits(rng.randrange(1, 140))
        elif k == 5:
            x = int.from_bytes(gen.special_bytes(rng, 32), 'big') % P
        else:
            x = rng.randrange(P)
        pt = R1.lift_x(x, rng.getrandbits(1))
    return pt


def roundtrip(ctx):
    rng = ctx.rng
    pt = point(rng)
    if rng.random() < .2:
        obj = ECDSA.decode_secp256r1(oracle.compress(pt).hex()).G
    else:
        obj = ECDSA.secp256r1().Curve.point(*pt)
    c, u = oracle.compress(pt), b'\x04' + b32(pt[0]) + b32(pt[1])
    ctx.equal('compressed', raw(ctx.returned('encoding-given', ctx.call('encode_point', obj.encode_point, True))), c)
    ctx.equal('compressed', raw(ctx.returned('encoding-given', ctx.call('encode_point', obj.encode_point))), c)
    ctx.equal('uncompressed', raw(ctx.returned('encoding-given', ctx.call('encode_point', obj.encode_point, False))), u)
    ctx.check('size', obj.Size() == 33 and obj.IsInfinity is False)
    for data in (c, u):
        for name, fn in rng.sample(decoders(data), 4):
            got = ctx.returned('own-encoding-decoded', ctx.call(name, fn), data)
            ctx.equal('same-point', pt_of(got), pt, name)
    for data in (u[1:], rng.randbytes(8) + u[1:], b'\x04' * 8 + u[1:]):
        got = ctx.returned('own-encoding-decoded', ctx.call('FromBytes', ECDSA.FromBytes_Secp256r1, data), data)
        ctx.equal('same-point', pt_of(got), pt, 'FromBytes of %d bytes' % len(data))
    for data in (u[1:] + rng.randbytes(32), rng.randbytes(8) + u[1:] + rng.randbytes(32)):
        got = ctx.returned('own-encoding-decoded', ctx.call('FromBytes', ECDSA.FromBytes_Secp256r1, data), data)
        ctx.equal('same-point', pt_of(got), pt, 'FromBytes of %d bytes' % len(data))
    ctx.check('operands-unchanged', (obj.x.value, obj.y.value) == pt)
    ctx.seen(c[0], c[1] >> 4, c[32] & 15, len(c[1:].lstrip(b'\0')), len(b32(pt[1]).lstrip(b'\0')), len(c.rstrip(b'\0')))


def streams(ctx):
    """points and infinities between other data in one stream"""
    rng = ctx.rng
    ms = io.BytesIO()
    w = BinaryWriter(ms)
    curve = ECDSA.secp256r1().Curve
    items = []
    wire = b''
    for _ in range(rng.randrange(1, 6)):
        k = rng.randrange(4)
        if k == 0:
            items.append(None)
            ctx.returned('written', ctx.call('Serialize', curve.Infinity.Serialize, w))
            wire += b'\0'
        elif k == 1:
            b = rng.randbytes(1)
            items.append(b)
            ctx.returned('written', ctx.call('WriteByte', w.WriteByte, b))
            wire += b
        else:
            pt = point(rng)
            items.append(pt)
            ctx.returned('written', ctx.call('Serialize', curve.point(*pt).Serialize, w))
            wire += oracle.compress(pt)
    ctx.equal('stream-form', ms.getvalue(), wire)
    pt = point(rng)
    s2 = io.BytesIO()
    ctx.returned('written', ctx.call('Serialize', curve.point(*pt).Serialize, BinaryWriter(s2), False))
    ctx.equal('stream-form', s2.getvalue(), b'\x04' + b32(pt[0]) + b32(pt[1]))
    ms.seek(0)
    r = BinaryReader(ms)
    for it in items:
        if isinstance(it, bytes):
            ctx.equal("stream-position", bytes(r.ReadByte(False)), it)
            continue
        got = ctx.returned('read', ctx.call('Deserialize_Secp256r1', ECDSA.Deserialize_Secp256r1, r))
        ctx.equal('same-point', pt_of(got), it or (0, 0))
        ctx.check('size', got.IsInfinity is (it is None) and got.Size() == (1 if it is None else 33))
    ctx.check('stream-position', ms.tell() == len(wire))
    ctx.seen(tuple(type(i).__name__ for i in items))


def no_point(ctx, name, fn, why, data):
    out = ctx.call(name, fn)
    # FromBytes answers None for a length it does not know
    ctx.run.monitors['refused'] = ctx.run.monitors.get('refused', 0) + 1
    if out.ok and out.value is not None:
        ctx.check('refused', False, name, why, data, 'gave', out.value.G if hasattr(out.value, 'G') else out.value)


def stream_no_point(ctx, data, why):
    out = ctx.call('Deserialize_Secp256r1', ECDSA.Deserialize_Secp256r1, BinaryReader(io.BytesIO(data)))
    ctx.refused('refused', out, why, data)


def denotes_point(data):
    """a standard encoding of a point of the curve, or of infinity"""
    if data == b'\0':
        return True
    if len(data) == 33 and data[0] in (2, 3):
        return R1.lift_x(int.from_bytes(data[1:], 'big'), data[0] & 1) is not None
    if len(data) == 65 and data[0] == 4:
        return R1.on_curve((int.from_bytes(data[1:33], 'big'), int.from_bytes(data[33:], 'big')))
    return len(data) == 64 and denotes_point(b'\4' + data)


def bad_x(rng):
    while True:
        x = rng.choice([rng.randrange(P), rng.randrange(P), rng.getrandbits(rng.randrange(1, 200)), keys.shaped(rng, P), int.from_bytes(gen.special_bytes(rng, 32), 'big') % P,
                        (rng.getrandbits(256) >> 8 * rng.randrange(1, 9) << 8 * rng.randrange(1, 30)) % P])
        if R1.lift_x(x, 0) is None:
            return x


def refusals(ctx):
    rng = ctx.rng
    pt = point(rng)
    X, Y = b32(pt[0]), b32(pt[1])
    c = oracle.compress(pt)
    u = b'\x04' + X + Y
    kp = K1.mul_g(rng.randrange(1, 10 ** 6))
    f = ctx.index % 256
    bad = []
    if f not in (2, 3):
        bad.append(('prefix', bytes([f]) + X))
    if f != 4:
        bad.append(('prefix', bytes([f]) + X + Y))
    x = bad_x(rng)
    bad += [('x of no point', b'\2' + b32(x)), ('x of no point', b'\3' + b32(x)), ('x not reduced', b'\2' + b32(P)), ('x not reduced', bytes([2 + f % 2]) + b32(P + rng.randrange(1 << 40))),
            ('x not reduced', bytes([2 + f % 2]) + b'\xff' * 32)]
    # the residue of an unreduced x is the x of a point: the same point would get a second encoding
    small = None
    while small is None:
        small = R1.lift_x(rng.getrandbits(rng.choice([20, 100, 200])), f % 2)
    bad += [('x not reduced', bytes([2 + f % 2]) + b32(small[0] + P)), ('x not reduced', b'\4' + b32(small[0] + P) + b32(small[1])),
            ('off curve', b'\4' + X + b32(pt[1] ^ (1 << rng.randrange(255)))), ('off curve', b'\4' + b32(pt[0] ^ (1 << rng.randrange(255))) + Y), ('off curve', b'\4' + Y + X),
            ('off curve', b'\4' + b32(kp[0]) + b32(kp[1])), ('off curve', b'\4' + rng.randbytes(64)), ('off curve', b'\4' + X + bytes(32)), ('off curve', b'\4' + bytes(32) + Y),
            ('off curve', b'\4' + X[::-1] + Y[::-1]), ('y not reduced', b'\4' + X + b'\xff' * 32), ('all ones', b'\4' + b'\xff' * 64),
            ('twice', c + c), ('one more', c + b'\0'), ('one more', u + b'\0'), ('one less', c[:-1]), ('one less', u[:-1]), ('only prefix', b'\2'), ('only prefix', b'\4'), ('empty', b''), ('infinity and more', b'\0\0'),
            ('zero 33', bytes(33)), ('zero 65', bytes(65)), ('uncompressed in 33', b'\4' + X), ('compressed in 65', b'\2' + X + Y), ('hybrid', bytes([6 + (pt[1] & 1)]) + X + Y),
            ('any', rng.randbytes(rng.randrange(70))), ('cut', u[:rng.randrange(2, 65)]), ('front zero', b'\0' + c), ('x zero y zero more', b'\4' + bytes(63) + b'\1')]
    for why, data in rng.sample(bad, 14) + bad[:2]:
        n = len(data)
        if denotes_point(data):
            continue
        for name, fn in rng.sample(decoders(data), 3):
            if name.startswith('FromBytes') and n in (64, 72, 96, 104):
                continue                     # other layouts, see blobs
            no_point(ctx, name, fn, why, data)
        ctx.seen(why, n, data[:1])
    for why, data in (('not hex', 'zz' * 33), ('odd', c.hex()[:-1]), ('odd', c.hex() + '0'), ('0x', '0x' + c.hex()), ('space', ' ' + c.hex()), *[('decorated', gen.decorated(rng, rng.choice([c, u, c]).hex())) for _ in range(3)]):
        if re.fullmatch('([0-9A-Fa-f]{2})+', data, re.A) and denotes_point(bytes.fromhex(data)):
            continue
        no_point(ctx, 'decode(hex text)', lambda: ECDSA.decode_secp256r1(data), why, data)


def bad_streams(ctx):
    rng = ctx.rng
    pt = point(rng)
    c = oracle.compress(pt)
    for n in range(33):
        stream_no_point(ctx, c[:n], 'cut')
    f = ctx.index % 256
    if f not in (0, 2, 3):
        stream_no_point(ctx, bytes([f]) + c[1:] + b32(pt[1]), 'prefix')
    x = bad_x(rng)
    for why, d in (('x of no point', bytes([2 + f % 2]) + b32(x)), ('x not reduced', bytes([2 + f % 2]) + b32(P + rng.randrange(1 << 40))), ('x not reduced', bytes([2 + f % 2]) + b'\xff' * 32)):
        stream_no_point(ctx, d, why)
        stream_no_point(ctx, d + rng.randbytes(10), why)
    small = None
    while small is None:
        small = R1.lift_x(rng.getrandbits(100), f % 2)
    stream_no_point(ctx, bytes([2 + f % 2]) + b32(small[0] + P), 'x not reduced')
    ctx.seen('stream', f, x & 15)


def blobs(ctx):
    """64- and 72-byte blobs of no point; blobs of every other length"""
    rng = ctx.rng
    pt = point(rng)
    X, Y = b32(pt[0]), b32(pt[1])
    for why, d in (('off curve', X + b32(pt[1] ^ (1 << rng.randrange(255)))), ('off curve', Y + X), ('off curve', rng.randbytes(64)), ('off curve', X + bytes(32)), ('not reduced', b'\xff' * 64)):
        if denotes_point(d):
            continue
        no_point(ctx, 'FromBytes', lambda: ECDSA.FromBytes_Secp256r1(d), why, d)
        d8 = rng.randbytes(8) + d
        no_point(ctx, 'FromBytes', lambda: ECDSA.FromBytes_Secp256r1(d8), why, d8)
    n = ctx.index % 200
    if n not in (33, 64, 65, 72, 96, 104):
        for d in (rng.randbytes(n), (oracle.compress(pt) * 7)[:n], (b'\4' + X + Y + X + Y + X + Y + X)[:n], (X + Y + X + Y + X + Y + X)[:n], b'\0' * n):
            no_point(ctx, 'FromBytes', lambda: ECDSA.FromBytes_Secp256r1(d), 'length', d)
            if d != b'\0':
                no_point(ctx, 'decode(raw)', lambda: ECDSA.decode_secp256r1(d, unhex=False), 'length', d)
        ctx.seen('blob', n)


def distinct(ctx):
    """different points never share an encoding, and the two points of one x differ by prefix only"""
    rng = ctx.rng
    pt = point(rng)
    m = R1.neg(pt)
    a, b = (raw(ECDSA.secp256r1().Curve.point(*q).encode_point(True)) for q in (pt, m))
    ctx.check('distinct-encodings', a != b and a[1:] == b[1:] and {a[0], b[0]} == {2, 3}, a, b)
    for e, q in ((a, pt), (b, m)):
        got = ctx.returned('own-encoding-decoded', ctx.call('decode(raw)', ECDSA.decode_secp256r1, e, unhex=False))
        ctx.equal('same-point', pt_of(got), q)
    k = keys.key(rng)
    kp = KeyPair(k)
    ctx.equal('compressed', raw(kp.PublicKey.encode_point(True)), oracle.compress(oracle.pub_of(k)))
    ctx.seen('distinct', a[0], a[1] >> 5)


FAMILIES = [Family('roundtrip', 4000, 80000, roundtrip), Family('streams', 2400, 40000, streams), Family('refusals', 1536, 25600, refusals), Family('bad_streams', 512, 10240, bad_streams),
            Family('blobs', 2000, 10000, blobs), Family('distinct', 1000, 10000, distinct)]

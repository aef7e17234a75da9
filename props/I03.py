import io
import struct
from vlib.core import Family
from vlib import gen, oracle, ser, ser2, wire
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from neocore.Cryptography.ECCurve import ECDSA

PROP = 'I03'

STRICT = [o for o in wire.OPS if o.name.rstrip('<>') in
          ('Int8', 'UInt8', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Float', 'Double', 'Bool', 'Char', 'Fixed8',
           'UInt160', 'UInt160.self', 'UInt256', 'UInt256.self', 'Bytes.array', 'VarString.bytes', 'VarString.text', 'String', 'VarInt')]


def reader(data, pre=b''):
    s = io.BytesIO(pre + data)
    s.seek(len(pre))
    return BinaryReader(s)


def cuts(ctx):
    """every cut point of one encoded value"""
    rng = ctx.rng
    op = STRICT[ctx.index % len(STRICT)]
    v = op.gen(rng)
    w = op.wire(v)
    name = op.name.rstrip('<>')
    pre = rng.randbytes(rng.choice([0, 0, 3]))
    points = range(len(w)) if len(w) <= 80 else sorted(set(list(range(12)) + [len(w) - k for k in range(1, 12)] + [rng.randrange(len(w)) for _ in range(10)]))
    for cut in points:
        if name.startswith(('VarInt', 'VarString')) and cut == 0:
            continue            # nothing at all: documented to read as zero
        out = op.read(ctx, reader(w[:cut], pre), v)
        ctx.refused('short-read-refused', out, op.name, 'cut at %d of %d' % (cut, len(w)), w[:cut])
        ctx.seen(op.name, min(cut, 9), len(w) - cut if len(w) - cut < 3 else 3)
    if name == 'VarInt':
        n = v if isinstance(v, int) else 0
        w2 = wide(rng, n)
        for cut in range(1, len(w2)):
            ctx.refused('short-read-refused', ctx.call('ReadVarInt', reader(w2[:cut], pre).ReadVarInt), 'VarInt in %d bytes' % len(w2), 'cut at %d' % cut, w2)
    # the whole value still reads
    ctx.returned('whole-read-accepted', op.read(ctx, reader(w, pre), v))


def exact(ctx):
    """an exact number of bytes"""
    rng = ctx.rng
    data = gen.bytestr(rng)
    n = len(data)
    for want in sorted({0, 1, n - 1, n, n + 1, n + 2, n * 2, n + rng.randrange(1, 100), 1 << 20, 256, 257}):
        if want < 0:
            continue
        out = ctx.call('SafeReadBytes', reader(data).SafeReadBytes, want)
        if want > n:
            ctx.refused('short-read-refused', out, 'have %d want %d' % (n, want))
        else:
            ctx.equal('exact-bytes', bytes(ctx.returned('whole-read-accepted', out)), data[:want])
        ctx.seen(want > n, want.bit_length(), n.bit_length())
    # reading on after a partial read
    r = reader(data)
    k = rng.randrange(n + 1)
    ctx.equal('exact-bytes', bytes(ctx.returned('whole-read-accepted', ctx.call('SafeReadBytes', r.SafeReadBytes, k))), data[:k])
    ctx.refused('short-read-refused', ctx.call('SafeReadBytes', r.SafeReadBytes, n - k + 1))


def keys(ctx):
    """public keys from a stream"""
    rng = ctx.rng
    pt = oracle.R1.mul_g(gen.uint(rng, 256) % (oracle.R1.n - 1) + 1)
    w = oracle.compress(pt)
    for cut in range(33):
        out = ctx.call('Deserialize_Secp256r1', ECDSA.Deserialize_Secp256r1, reader(w[:cut]))
        ctx.refused('short-read-refused', out, 'public key cut at %d' % cut)
        ctx.seen(cut, w[0])
    got = ctx.returned('whole-read-accepted', ctx.call('Deserialize_Secp256r1', ECDSA.Deserialize_Secp256r1, reader(w)))
    ctx.equal('exact-bytes', (got.x.value, got.y.value), pt)


def wide(rng, n):
    """the number in any of its forms, the shortest one most of the time"""
    forms = [b'\xfd' + struct.pack('<H', n)] if n < 1 << 16 else []
    forms += [b'\xfe' + struct.pack('<I', n)] if n < 1 << 32 else []
    forms += [b'\xff' + struct.pack('<Q', n)]
    return oracle.varint(n) if rng.random() < .6 else rng.choice(forms)


def near(rng, n):
    out = {0, 1, n - 1, n, n + 1, n - 2, n + 2, n // 2, n * 2, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, rng.randrange(n + 2), (1 << 63) - 1, 1 << 64}
    return sorted(m for m in out if m >= 0)


def maximum(ctx):
    """declared length or value against the caller's maximum"""
    rng = ctx.rng
    n = gen.uint(rng, rng.choice([8, 9, 16, 17, 32, 64]))
    w = wide(rng, n)
    for m in near(rng, n):
        out = ctx.call('ReadVarInt', reader(w).ReadVarInt, max=m)
        if n > m:
            ctx.refused('over-maximum-refused', out, 'value %d max %d' % (n, m))
        else:
            ctx.equal('at-or-below-maximum-accepted', ctx.returned('at-or-below-maximum-accepted', out), n)
        ctx.seen('int', n > m, n == m, n.bit_length())
    data = gen.bytestr(rng)
    ln = len(data)
    if ln:
        w = wide(rng, ln) + data
        for m in near(rng, ln):
            for name in ('ReadVarBytes', 'ReadVarString'):
                out = ctx.call(name, getattr(reader(w), name), max=m)
                if ln > m:
                    ctx.refused('over-maximum-refused', out, name, 'length %d max %d' % (ln, m))
                else:
                    ctx.equal('at-or-below-maximum-accepted', bytes(ctx.returned('at-or-below-maximum-accepted', out)), data)
            ctx.seen('bytes', ln > m, ln == m, ln.bit_length())
    # declared larger than the maximum and larger than the data
    decl = ln + rng.choice([1, 2, 100, 1 << 20, 1 << 33])
    for name in ('ReadVarBytes', 'ReadVarString'):
        ctx.refused('over-maximum-refused', ctx.call(name, getattr(reader(wide(rng, decl) + data), name), max=decl - 1))
    out = ctx.call('ReadVarString', reader(wide(rng, decl) + data).ReadVarString)
    ctx.refused('short-read-refused', out, 'text declares %d, has %d' % (decl, ln))
    out = ctx.call('ReadVarBytes', reader(wide(rng, decl) + data).ReadVarBytes)
    if out.ok:
        # tolerated short read: what is there and nothing else
        ctx.equal('nothing-made-up', bytes(out.value), data)
    k = rng.choice([1, 2, 3, 5, 252, 253, 300])
    w = wide(rng, k) + b''.join(i.to_bytes(8, 'little') for i in range(k))
    for m in near(rng, k):
        out = ctx.call('ReadSerializableArray', reader(w).ReadSerializableArray, 'vlib.ser.Small', max=m)
        if k > m:
            ctx.refused('over-maximum-refused', out, 'array of %d max %d' % (k, m))
        else:
            ctx.equal('at-or-below-maximum-accepted', [e.v for e in ctx.returned('at-or-below-maximum-accepted', out)], list(range(k)))
        ctx.seen('array', k > m, k == m, k)


def arrays(ctx):
    """arrays cut anywhere give the complete leading elements"""
    rng = ctx.rng
    kind = rng.choice(['Item', 'Small', 'UInt160', 'UInt256', 'Small2', 'Box'])
    n = rng.choice([1, 2, 3, 4, 5, 7]) if ctx.index % 20 else rng.choice([253, 254, 260])
    if kind == 'Item':
        items = [wire.gen_item(rng) for _ in range(min(n, 7))]
        enc = [wire.item_wire(i) for i in items]
        if sum(map(len, enc)) > 6000:
            items, enc = items[:2], enc[:2]
    elif kind == 'Small':
        items = [ser.Small(gen.uint(rng, 64)) for _ in range(n)]
        enc = [i.v.to_bytes(8, 'little') for i in items]
    elif kind == 'Small2':
        items = [ser2.Small(gen.uint(rng, 40)) for _ in range(n)]
        enc = [i.v.to_bytes(5, 'big') for i in items]
    elif kind == 'Box':
        items = [wire.gen_box(rng) for _ in range(min(n, 7))]
        enc = [wire.array_wire(('Box', [i]))[1:] for i in items]
    else:
        cls, wd = (UInt160, 20) if kind == 'UInt160' else (UInt256, 32)
        items = [cls(data=wire.nonhex(rng, wd)) for _ in range(n)]
        enc = [bytes(i.Data) for i in items]
    n = len(items)
    head = oracle.varint(n)
    body = b''.join(enc)
    ends = [0]
    for e in enc:
        ends.append(ends[-1] + len(e))
    points = set(range(len(body) + 1)) if len(body) <= 260 else {rng.randrange(len(body)) for _ in range(40)} | {len(body)}
    for e in ends[-60:] + ends[:20]:
        points |= {e, e - 1, e + 1}
    for cut in sorted(p for p in points if 0 <= p <= len(body)):
        out = ctx.call('ReadSerializableArray', reader(head + body[:cut]).ReadSerializableArray, wire.CLASS_PATH[kind])
        got = ctx.returned('truncated-array-readable', out)
        k = sum(1 for e in ends[1:] if e <= cut)
        ctx.equal('complete-leading-elements', wire.array_norm(got), wire.array_norm(items[:k]), 'cut %d of %d' % (cut, len(body)))
        ctx.seen(kind, k == n, min(n, 9), cut in ends)
    # declared count larger than what is there
    extra = rng.choice([1, 2, 250, 1 << 17])
    out = ctx.call('ReadSerializableArray', reader(oracle.varint(n + extra) + body).ReadSerializableArray, wire.CLASS_PATH[kind])
    ctx.equal('complete-leading-elements', wire.array_norm(ctx.returned('truncated-array-readable', out)), wire.array_norm(items))
    # count itself cut
    if len(head) > 1:
        for c in range(1, len(head)):
            ctx.refused('short-read-refused', ctx.call('ReadSerializableArray', reader(head[:c]).ReadSerializableArray, wire.CLASS_PATH[kind]))


def huge(ctx):
    """large counts and lengths against the maximum, and large inputs that end early"""
    rng = ctx.rng
    k = ctx.index % 4
    n = gen.HUGE_COUNTS[ctx.index // 4 % len(gen.HUGE_COUNTS)]
    size = gen.HUGE_LENGTHS[ctx.index // 4 % len(gen.HUGE_LENGTHS)]
    blob = (rng.randbytes(4099) * (size // 4099 + 1))[:size]
    if k == 0:
        w = oracle.varint(size) + blob
        for m in (size - 1, size, size + 1, 0xffff, 0x10000, 0xfd, 1 << 24, 1 << 40):
            for name in ('ReadVarBytes', 'ReadVarString'):
                out = ctx.call(name, getattr(reader(w), name), max=m)
                if size > m:
                    ctx.refused('over-maximum-refused', out, name, 'length %d max %d' % (size, m))
                else:
                    ctx.check('at-or-below-maximum-accepted', bytes(ctx.returned('at-or-below-maximum-accepted', out)) == blob, name, size, m)
    elif k == 1:
        cut = rng.choice([1, 2, size // 2, size - 1, rng.randrange(1, size)])
        out = ctx.call('ReadVarString', reader(oracle.varint(size) + blob[:size - cut]).ReadVarString)
        ctx.refused('short-read-refused', out, 'text of %d cut by %d' % (size, cut))
        out = ctx.call('SafeReadBytes', reader(blob[:size - cut]).SafeReadBytes, size)
        ctx.refused('short-read-refused', out, '%d bytes cut by %d' % (size, cut))
        ctx.check('exact-bytes', bytes(ctx.returned('whole-read-accepted', ctx.call('SafeReadBytes', reader(blob).SafeReadBytes, size))) == blob, size)
    elif k == 2:
        w = b''.join((i * 0x9e3779b97f4a7c15 & (1 << 64) - 1).to_bytes(8, 'little') for i in range(n))
        cut = rng.choice([1, 7, 8, 9, 8 * (n // 2) + 3, 8 * n - 1])
        have = (8 * n - cut) // 8
        out = ctx.call('ReadSerializableArray', reader(oracle.varint(n) + w[:8 * n - cut]).ReadSerializableArray, 'vlib.ser.Small')
        got = ctx.returned('truncated-array-readable', out)
        ctx.check('complete-leading-elements', b''.join(e.v.to_bytes(8, 'little') for e in got) == w[:8 * have], 'array of %d cut by %d' % (n, cut))
    else:
        w = oracle.varint(n) + bytes(8) * n
        for m in (n - 1, n, n + 1):
            out = ctx.call('ReadSerializableArray', reader(w).ReadSerializableArray, 'vlib.ser.Small', max=m)
            if n > m:
                ctx.refused('over-maximum-refused', out, 'array of %d max %d' % (n, m))
            else:
                ctx.check('at-or-below-maximum-accepted', len(ctx.returned('at-or-below-maximum-accepted', out)) == n, n, m)
    ctx.seen(k, n, size)


FAMILIES = [
    Family('cuts', len(STRICT) * 40, len(STRICT) * 800, cuts),
    Family('exact', 4500, 40000, exact),
    Family('keys', 250, 5000, keys),
    Family('maximum', 3600, 30000, maximum),
    Family('huge', 128, 512, huge),
    Family('arrays', 2100, 15000, arrays),
]

import io
import struct
from vlib.core import Family
from vlib import core, gen, oracle, ser, wire
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.Fixed8 import Fixed8
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

PROP = 'I02'


def stream(rng):
    """a stream with earlier contents, at its end"""
    s = io.BytesIO()
    s.write(rng.randbytes(rng.choice([0, 0, 1, 5, 33])))
    return s


def written(ctx, op, value):
    rng = ctx.rng
    s = stream(rng)
    before = s.getvalue()
    ctx.returned('write-accepted', op.write(ctx, BinaryWriter(s), value), op.name)
    want = op.wire(value)
    got = s.getvalue()
    ctx.check('prefix-kept', got[:len(before)] == before, op.name, 'changed earlier bytes', got, before)
    ctx.equal('wire-bytes', got[len(before):], want, op.name, core.render(value, 200))
    ctx.equal('position-at-end', s.tell(), len(got), op.name)


def valid(ctx):
    op = wire.OPS[ctx.index % len(wire.OPS)]
    for _ in range(10):
        v = op.gen(ctx.rng)
        if op.name.startswith(('Float', 'Double')) and v != v:
            v = 1.5
        written(ctx, op, v)
        ctx.seen(op.name, op.feat(v))


def lengths(ctx):
    from props.I01 import LENS
    n = LENS[ctx.index % len(LENS)]
    rng = ctx.rng
    for name in ('VarBytes', 'VarString.bytes', 'Bytes', 'Bytes.hex', 'Bytes.array'):
        v = gen.bytestr(rng, n)
        written(ctx, wire.BY_NAME[name], bytearray(v) if name == 'Bytes.array' else v)
    written(ctx, wire.BY_NAME['VarInt'], n)
    t = gen.text(rng, min(n, 5000))
    written(ctx, wire.BY_NAME['VarString.text'], (t, 'utf-8'))
    if n <= 2000:
        written(ctx, wire.BY_NAME['FixedString'], ('', n))
        written(ctx, wire.BY_NAME['FixedString'], ('a' * n, n))
        written(ctx, wire.BY_NAME['FixedString'], ('é' * (n // 2), n))
    if n <= 300:
        hs = [gen.bytestr(rng, 32) for _ in range(n)]
        written(ctx, wire.BY_NAME['Hashes'], hs)
    ctx.seen(n)


class Sub(int):
    """numbers of an int subclass are numbers too"""


def varints(ctx):
    """shortest form at and around every boundary, either byte order"""
    rng = ctx.rng
    vals = [0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0xffffffff, 0x100000000, (1 << 64) - 1, 1 << 63, (1 << 63) - 1,
            gen.uint(rng, 64), gen.uint(rng, 32), gen.uint(rng, 16), ctx.index, 1 << rng.randrange(64)]
    for v in vals:
        for endian in (None, '<', '>'):
            for conv in (int, Sub):
                if conv is Sub and rng.random() < .7:
                    continue
                s = stream(rng)
                before = s.getvalue()
                out = ctx.call('WriteVarInt', BinaryWriter(s).WriteVarInt, conv(v), **({} if endian is None else {'endian': endian}))
                ctx.returned('write-accepted', out)
                w = oracle.varint(v)
                if endian == '>':
                    w = w[:1] + w[:0:-1]
                ctx.equal('wire-bytes', s.getvalue()[len(before):], w, 'varint', hex(v), str(endian))
        ctx.seen(v.bit_length(), oracle.varint(v)[0] if v > 0xfc else 0)
    op = 'WriteVarBytes'
    data = gen.bytestr(rng)
    s = stream(rng)
    before = s.getvalue()
    ctx.returned('write-accepted', ctx.call(op, BinaryWriter(s).WriteVarBytes, data, endian='>'))
    w = oracle.varint(len(data))
    ctx.equal('wire-bytes', s.getvalue()[len(before):], w[:1] + w[:0:-1] + data)


def refuse(ctx, opname, fn_name, *args, **kw):
    s = stream(ctx.rng)
    before = s.getvalue()
    pos = s.tell()
    out = ctx.call(opname, getattr(BinaryWriter(s), fn_name), *args, **kw)
    ctx.refused('unfit-refused', out, args)
    ctx.check('refused-write-leaves-stream', s.getvalue() == before and s.tell() == pos, fn_name, args, 'appended', s.getvalue()[len(before):])


RANGES = []
for _bits in (8, 16, 32, 64):
    RANGES.append(('Int%d' % _bits, -(1 << _bits - 1), (1 << _bits - 1) - 1))
    RANGES.append(('UInt%d' % _bits, 0, (1 << _bits) - 1))


def unfit(ctx):
    """numbers, amounts and text outside the range of their type"""
    rng = ctx.rng
    for name, lo, hi in RANGES:
        over = rng.choice([1, 2, rng.getrandbits(8) + 1, rng.getrandbits(64) + 1, hi + 1, 1 << rng.choice([8, 16, 32, 64, 128])])
        for v in (hi + 1, lo - 1, hi + over, lo - over):
            refuse(ctx, 'Write' + name, 'Write' + name, v, **rng.choice([{}, {'endian': '<'}, {'endian': '>'}]))
        for v in (lo, hi, lo + 1, hi - 1):
            written(ctx, wire.BY_NAME[name], v)
        refuse(ctx, 'Write%s(type)' % name, 'Write' + name, rng.choice([1.5, '1', b'1', None, [1]]))
        ctx.seen(name, over.bit_length())
    big = 1 << rng.choice([64, 65, 72, 128, 200])
    for v in (-1, -rng.getrandbits(70) - 1, 1 << 64, big, (1 << 64) + rng.getrandbits(64)):
        refuse(ctx, 'WriteVarInt', 'WriteVarInt', v, **rng.choice([{}, {'endian': '>'}]))
    refuse(ctx, 'WriteVarInt(type)', 'WriteVarInt', rng.choice([1.0, '5', b'\5', None, 1j]))
    for v in (256, -1, 1 << rng.randrange(8, 80), -rng.getrandbits(20) - 1):
        refuse(ctx, 'WriteByte', 'WriteByte', v)
    for v in (1 << 63, -(1 << 63) - 1, (1 << 63) + rng.getrandbits(64), -(1 << 63) - 1 - rng.getrandbits(64), 1 << 64, 1 << rng.randrange(64, 200)):
        refuse(ctx, 'WriteFixed8', 'WriteFixed8', Fixed8(v))
    for v in (1 << 63, -(1 << 63) - 1, 1 << 64):
        refuse(ctx, 'WriteFixed8', 'WriteFixed8', Fixed8(v), unsigned=rng.random() < .5)
    refuse(ctx, 'WriteFloat', 'WriteFloat', rng.choice([3.5e38, -3.5e38, 1e300, -1e308, 1 << 200]), **rng.choice([{}, {'endian': '>'}]))
    refuse(ctx, 'WriteDouble', 'WriteDouble', 1 << 1100)
    for nm in ('WriteFloat', 'WriteDouble'):
        refuse(ctx, nm + '(type)', nm, rng.choice(['1', b'1', None]))
    refuse(ctx, 'WriteChar', 'WriteChar', rng.choice([b'', b'ab', 'a', 7, b'abc', None]))
    refuse(ctx, 'WriteUInt160', 'WriteUInt160', rng.choice([UInt256(), bytearray(20), b'x' * 20, None, 'x' * 40, 5]))
    refuse(ctx, 'WriteUInt256', 'WriteUInt256', rng.choice([UInt160(), bytearray(32), b'x' * 32, None, 'x' * 64, 5]))


def fixed_text(ctx):
    """text against its fixed length, counted in bytes"""
    rng = ctx.rng
    s = gen.text(rng, rng.choice([0, 1, 2, 3, 8, 31, 32, 33, rng.randrange(60)]))
    n = len(s.encode())
    for length in sorted({n - 1, n - 2, len(s) - 1, len(s), n, n + 1, n + 2, 0, n // 2, n * 2, rng.randrange(n + 40)}):
        if length < 0:
            continue
        if length < n:
            refuse(ctx, 'WriteFixedString', 'WriteFixedString', s, length)
        else:
            written(ctx, wire.BY_NAME['FixedString'], (s, length))
        ctx.seen(min(length - n, 3) if length >= n else -1, len(s) < n, length.bit_length())


NARROW = [('ascii', 0x80, 0x10ffff), ('latin-1', 0x100, 0x10ffff), ('cp1252', 0x400, 0x24ff), ('ascii', 0xd800, 0xdfff), ('utf-8', 0xd800, 0xdfff),
          ('utf-16', 0xd800, 0xdfff), ('cp437', 0x3041, 0x9fff), ('shift_jis', 0x10300, 0x1f9ff)]


def unencodable(ctx):
    """text the encoding has no bytes for, the culprit anywhere in it"""
    rng = ctx.rng
    enc, lo, hi = NARROW[ctx.index % len(NARROW)]
    bad = chr(rng.choice([lo, hi, rng.randrange(lo, hi + 1)]))
    good = ''.join(rng.choice('abc \x00?Z9') for _ in range(rng.choice([0, 1, 2, 5, 40, 252, 253, 300])))
    at = rng.choice([0, len(good), rng.randrange(len(good) + 1)])
    text = good[:at] + bad + good[at:]
    try:
        text.encode(enc)
        return
    except UnicodeEncodeError:
        pass
    if enc == 'utf-8' and rng.random() < .5:
        refuse(ctx, 'WriteVarString', 'WriteVarString', text)
    else:
        refuse(ctx, 'WriteVarString', 'WriteVarString', text, **{'encoding': enc})
    if enc == 'utf-8':
        for n in (len(text.encode('utf-8', 'surrogatepass')), len(text), len(good) + 60, len(text.encode('utf-8', 'ignore'))):
            refuse(ctx, 'WriteFixedString', 'WriteFixedString', text, n)
    # the same text without the culprit is written
    written(ctx, wire.BY_NAME['VarString.bytes'], good.encode(enc))
    s = stream(rng)
    before = s.getvalue()
    ctx.returned('write-accepted', ctx.call('WriteVarString', BinaryWriter(s).WriteVarString, good, encoding=enc))
    w = good.encode(enc)
    ctx.equal('wire-bytes', s.getvalue()[len(before):], oracle.varint(len(w)) + w, 'WriteVarString', enc)
    ctx.seen(enc, at == 0, at == len(good), len(good))


def hash_lists(ctx):
    rng = ctx.rng
    items = [gen.bytestr(rng, 32) for _ in range(rng.choice([0, 1, 2, 3, 10]))]
    s = stream(rng)
    before = s.getvalue()
    ctx.returned('write-accepted', ctx.call('Write2000256List', BinaryWriter(s).Write2000256List, [wire.hash_arg(i, b) for i, b in enumerate(items)]))
    ctx.equal('wire-bytes', s.getvalue()[len(before):], b''.join(items), 'Write2000256List')
    written(ctx, wire.BY_NAME['Hashes'], items)
    if ctx.index < 4:
        big = [rng.randbytes(32) for _ in range(2000)]
        s = io.BytesIO()
        ctx.returned('write-accepted', ctx.call('Write2000256List', BinaryWriter(s).Write2000256List, [b[::-1].hex() for b in big]))
        ctx.equal('wire-bytes', s.getvalue(), b''.join(big), 'Write2000256List')
    ctx.seen(len(items), sum(map(wire.hexlike, items)))


def hexlike_uint(ctx):
    rng = ctx.rng
    cls, w = rng.choice([(UInt160, 20), (UInt256, 32)])
    data = bytes(rng.choice(gen.HEXD) for _ in range(w))
    s = stream(rng)
    before = s.getvalue()
    ctx.returned('write-accepted', ctx.call('Write' + cls.__name__, getattr(BinaryWriter(s), 'Write' + cls.__name__), cls(data=data)))
    got = s.getvalue()[len(before):]
    ctx.check('hexlike-uint-observed', True)
    if got == bytes.fromhex(data.decode()):
        ctx.known('KF1', '%s %s written as %s' % (cls.__name__, data.hex(), got.hex()))
    else:
        ctx.equal('wire-bytes', got, data, cls.__name__)
    # one character away from the finding: must be written in full
    i = rng.randrange(w)
    near = bytearray(data)
    near[i] = rng.choice([0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67, 0, 0xff, 0x20])
    written(ctx, wire.BY_NAME[cls.__name__], bytes(near))
    ctx.seen(cls.__name__, i)


def huge(ctx):
    """counts and lengths past every prefix and buffer boundary"""
    rng = ctx.rng
    k = ctx.index % 8
    n = gen.HUGE_COUNTS[ctx.index // 8 % len(gen.HUGE_COUNTS)]
    size = gen.HUGE_LENGTHS[ctx.index // 8 % len(gen.HUGE_LENGTHS)]
    unit = rng.randbytes(4099)
    blob = (unit * (size // 4099 + 1))[:size]
    if k == 0:
        written(ctx, wire.BY_NAME['Hashes'], wire.repeats(rng, [i.to_bytes(4, 'big') + unit[i % 4000:i % 4000 + 28] for i in range(n)]))
    elif k == 1:
        written(ctx, wire.BY_NAME['Array'], ('Small', [ser.Small(i * 0x9e3779b97f4a7c15 & (1 << 64) - 1) for i in range(n)]))
    elif k == 2:
        cls, w, kind = rng.choice([(UInt160, 20, 'UInt160'), (UInt256, 32, 'UInt256')])
        written(ctx, wire.BY_NAME['Array'], (kind, [cls(data=b'\xff' + i.to_bytes(4, 'little') + unit[i % 4000:i % 4000 + w - 5]) for i in range(n)]))
    elif k == 3:
        written(ctx, wire.BY_NAME['VarBytes'], blob)
    elif k == 4:
        written(ctx, wire.BY_NAME['VarString.bytes'], blob)
    elif k == 5:
        written(ctx, *rng.choice([(wire.BY_NAME['Bytes'], blob), (wire.BY_NAME['Bytes.hex'], blob), (wire.BY_NAME['Bytes.array'], bytearray(blob))]))
    elif k == 6:
        for v in (('', size), ('ab\u00e9' * (size // 5), size), ('z' * size, size), ('z' * (size - 1), size)):
            written(ctx, wire.BY_NAME['FixedString'], v)
        refuse(ctx, 'WriteFixedString', 'WriteFixedString', 'z' * (size + 1), size)
        refuse(ctx, 'WriteFixedString', 'WriteFixedString', '\u00e9' * (size // 2 + 1), size)
    else:
        written(ctx, wire.BY_NAME['VarString.text'], (('\u00e9\U0001f600' * (size // 6 + 1))[:size // 6], rng.choice(['utf-8', 'utf-16'])))
    ctx.seen(k, n if k < 3 else size)


FAMILIES = [
    Family('valid', len(wire.OPS) * 60, len(wire.OPS) * 1500, valid),
    Family('lengths', 360, 2000, lengths),
    Family('huge', 128, 640, huge),
    Family('varints', 700, 20000, varints),
    Family('unfit', 800, 20000, unfit),
    Family('fixed-text', 1500, 40000, fixed_text),
    Family('unencodable', 800, 20000, unencodable),
    Family('hash-lists', 400, 8000, hash_lists),
    Family('hexlike-uint', 200, 4000, hexlike_uint),
]

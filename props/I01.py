import io
import os
import tempfile
from vlib.core import Family
from vlib import gen, ser, wire
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

PROP = 'I01'


def check_read(ctx, br, op, value, start, end):
    out = op.read(ctx, br, value)
    got = ctx.returned('read-gives-value', out, 'after writing', value, 'with', op.name)
    try:
        norm = op.norm(got)
    except Exception as e:
        norm = 'not comparable: %r' % e
    ctx.equal('value-unchanged', norm, op.expect(value), op.name)
    ctx.equal('consumed-exactly', br.stream.tell(), end, op.name, 'started at %d' % start)


def write_one(ctx, bw, op, value):
    start = bw.stream.tell()
    ctx.returned('write-accepted', op.write(ctx, bw, value), op.name, 'value', value)
    return start, bw.stream.tell()


def sequence(ctx):
    """several streams written in turn, then read in turn"""
    rng = ctx.rng
    nstreams = rng.choice([1, 1, 2, 3])
    streams, files = [], []
    for _ in range(nstreams):
        if rng.random() < .1:
            f = tempfile.TemporaryFile(dir=os.environ.get('VERIF_TMP'), buffering=rng.choice([0, -1]))
            files.append(f)
            streams.append(f)
        else:
            streams.append(wire.SpyStream())
    writers = [BinaryWriter(s) for s in streams]
    plans = [[] for _ in streams]
    for _ in range(rng.choice([1, 2, 3, 6, 12, 25])):
        i = rng.randrange(nstreams)
        op = rng.choices(wire.OPS, wire.WEIGHTS)[0]
        v = op.gen(rng)
        a, b = write_one(ctx, writers[i], op, v)
        plans[i].append((op, v, a, b))
        ctx.seen(op.name, op.feat(v))
    same_stream = rng.random() < .5
    readers = []
    for s in streams:
        s.seek(0)
        if same_stream:
            readers.append(BinaryReader(s))
        else:
            readers.append(BinaryReader(wire.SpyStream(s.read())))
    at = [0] * nstreams
    left = [i for i in range(nstreams) if plans[i]]
    while left:
        i = rng.choice(left)
        op, v, a, b = plans[i][at[i]]
        check_read(ctx, readers[i], op, v, a, b)
        at[i] += 1
        if at[i] == len(plans[i]):
            ctx.equal('nothing-left', readers[i].stream.read(), b'')
            left.remove(i)
    for f in files:
        f.close()


def interleaved(ctx):
    """one stream, reads and writes alternating through a moving window"""
    rng = ctx.rng
    s = wire.SpyStream()
    bw, br = BinaryWriter(s), BinaryReader(s)
    queue, rpos, wpos = [], 0, 0
    for _ in range(rng.randrange(2, 24)):
        if queue and rng.random() < .5:
            op, v, a, b = queue.pop(0)
            s.seek(rpos)
            check_read(ctx, br, op, v, a, b)
            rpos = b
        else:
            op = rng.choices(wire.OPS, wire.WEIGHTS)[0]
            v = op.gen(rng)
            s.seek(wpos)
            a, b = write_one(ctx, bw, op, v)
            wpos = b
            queue.append((op, v, a, b))
            ctx.seen(op.name, op.feat(v))


def each(ctx):
    """every operation on its own, many values"""
    rng = ctx.rng
    op = wire.OPS[ctx.index % len(wire.OPS)]
    for _ in range(12):
        v = op.gen(rng)
        s = io.BytesIO()
        a, b = write_one(ctx, BinaryWriter(s), op, v)
        s.seek(0)
        check_read(ctx, BinaryReader(s), op, v, a, b)
        ctx.seen(op.name, op.feat(v))


LENS = sorted(set(list(range(0, 300)) + [x + d for x in (511, 512, 1000, 1023, 1024, 2000, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 100000)
                                         for d in (-1, 0, 1)]))


def lengths(ctx):
    """every length near the prefix boundaries, for every length-prefixed type"""
    n = LENS[ctx.index % len(LENS)]
    rng = ctx.rng
    for name in ('VarBytes', 'VarString.bytes', 'Bytes', 'Bytes.hex'):
        op = wire.BY_NAME[name]
        v = gen.bytestr(rng, n)
        s = io.BytesIO()
        bw = BinaryWriter(s)
        a, b = write_one(ctx, bw, op, v)
        tail = wire.BY_NAME['UInt32']
        c, d = write_one(ctx, bw, tail, 0xdeadbeef)
        s.seek(0)
        br = BinaryReader(s)
        check_read(ctx, br, op, v, a, b)
        check_read(ctx, br, tail, 0xdeadbeef, c, d)
    s = io.BytesIO()
    op = wire.BY_NAME['VarInt']
    a, b = write_one(ctx, BinaryWriter(s), op, n)
    s.seek(0)
    check_read(ctx, BinaryReader(s), op, n, a, b)
    if n < 300:
        for kind, w in (('UInt160', 20), ('UInt256', 32)):
            cls = UInt160 if w == 20 else UInt256
            op = wire.BY_NAME['Array']
            v = (kind, [cls(data=wire.nonhex(rng, w)) for _ in range(n)])
            s = io.BytesIO()
            a, b = write_one(ctx, BinaryWriter(s), op, v)
            s.seek(0)
            check_read(ctx, BinaryReader(s), op, v, a, b)
    ctx.seen(n)


def bytes_all(ctx):
    """every one-byte value through every one-byte type; every two-byte pattern as wide values"""
    rng = ctx.rng
    i = ctx.index % 256
    for name, v in (('Byte.int', i), ('Byte.bytes', bytes([i])), ('Char', bytes([i])), ('UInt8', i), ('Int8', i - 128), ('UInt8>', i), ('Int8>', i - 128),
                    ('VarInt', i), ('VarBytes', bytes([i])), ('VarString.bytes', bytes([i])), ('Bytes', bytes([i])),
                    ('UInt16', i * 257), ('UInt16>', i << 8), ('UInt32', i << 24), ('UInt64', i << 56), ('Fixed8', (i - 128) << 56),
                    ('UInt160', bytes([i]) * 19 + b'\xff'), ('UInt256', b'\xff' + bytes([i]) * 31)):
        op = wire.BY_NAME[name]
        s = io.BytesIO()
        bw = BinaryWriter(s)
        a, b = write_one(ctx, bw, op, v)
        s.seek(0)
        check_read(ctx, BinaryReader(s), op, v, a, b)
    ctx.seen(i)


def list2000(ctx):
    """the 2000-entry list: hexadecimal text on the stream reads as the reversed hashes"""
    rng = ctx.rng
    s = io.BytesIO()
    bw = BinaryWriter(s)
    items = [rng.randbytes(32) for _ in range(1990)] + [gen.bytestr(rng, 32) for _ in range(10)]
    for b in items:
        ctx.returned('write-accepted', ctx.call('WriteBytes', bw.WriteBytes, b.hex().encode(), unhex=False)) if b is items[0] else bw.WriteBytes(b.hex().encode(), unhex=False)
    bw.WriteUInt16(0xabcd)
    s.seek(0)
    br = BinaryReader(s)
    got = ctx.returned('read-gives-value', ctx.call('Read2000256List', br.Read2000256List))
    ctx.equal('value-unchanged', [bytes(g) for g in got], [b[::-1].hex().encode() for b in items])
    ctx.equal('value-unchanged', br.ReadUInt16(), 0xabcd)
    ctx.seen(ctx.index)


def hexlike_uint(ctx):
    """160/256-bit values whose bytes all look like hexadecimal digits (known finding KF1)"""
    rng = ctx.rng
    cls, w = rng.choice([(UInt160, 20), (UInt256, 32)])
    data = bytes(rng.choice(gen.HEXD) for _ in range(w))
    s = io.BytesIO()
    bw = BinaryWriter(s)
    ctx.returned('write-accepted', ctx.call('Serialize', cls(data=data).Serialize, bw))
    wrote = s.getvalue()
    ctx.check('hexlike-uint-observed', True)
    if wrote == bytes.fromhex(data.decode()):
        ctx.known('KF1', '%s %s written as %s' % (cls.__name__, data.hex(), wrote.hex()))
    else:
        s.seek(0)
        op = wire.BY_NAME[cls.__name__]
        check_read(ctx, BinaryReader(s), op, data, 0, w)
    ctx.seen(cls.__name__, len(wrote))


def huge(ctx):
    """counts and lengths past every prefix and buffer boundary, with a value behind them"""
    rng = ctx.rng
    k = ctx.index % 8
    n = gen.HUGE_COUNTS[ctx.index // 8 % len(gen.HUGE_COUNTS)]
    size = gen.HUGE_LENGTHS[ctx.index // 8 % len(gen.HUGE_LENGTHS)]
    unit = rng.randbytes(4099)
    blob = (unit * (size // 4099 + 1))[:size]
    if k == 0:
        op, v = wire.BY_NAME['Hashes'], wire.repeats(rng, [i.to_bytes(4, 'big') + unit[i % 4000:i % 4000 + 28] for i in range(n)])
    elif k == 1:
        op, v = wire.BY_NAME['Array'], ('Small', [ser.Small(i * 0x9e3779b97f4a7c15 & (1 << 64) - 1) for i in range(n)])
    elif k == 2:
        cls, w, kind = rng.choice([(UInt160, 20, 'UInt160'), (UInt256, 32, 'UInt256')])
        op, v = wire.BY_NAME['Array'], (kind, [cls(data=b'\xff' + i.to_bytes(4, 'little') + unit[i % 4000:i % 4000 + w - 5]) for i in range(n)])
    elif k == 3:
        op, v = wire.BY_NAME['VarBytes'], blob
    elif k == 4:
        op, v = wire.BY_NAME['VarString.bytes'], blob
    elif k == 5:
        op, v = rng.choice([(wire.BY_NAME['Bytes'], blob), (wire.BY_NAME['Bytes.hex'], blob), (wire.BY_NAME['Bytes.array'], bytearray(blob))])
    elif k == 6:
        op, v = wire.BY_NAME['FixedString'], rng.choice([('', size), ('ab\u00e9' * (size // 5), size), ('z' * size, size), ('z' * (size - 1), size)])
    else:
        op, v = wire.BY_NAME['VarString.text'], (('\u00e9\U0001f600' * (size // 6 + 1))[:size // 6], rng.choice(['utf-8', 'utf-16']))
    s = io.BytesIO()
    bw = BinaryWriter(s)
    if rng.random() < .5:
        s.write(blob)                      # far into a stream
    a, b = write_one(ctx, bw, op, v)
    tail = wire.BY_NAME['UInt32']
    c, d = write_one(ctx, bw, tail, 0xdeadbeef)
    s.seek(a)
    br = BinaryReader(s)
    check_read(ctx, br, op, v, a, b)
    check_read(ctx, br, tail, 0xdeadbeef, c, d)
    ctx.seen(k, n if k < 3 else size)


def long_stream(ctx):
    """thousands of values through one writer and one reader"""
    rng = ctx.rng
    s = io.BytesIO()
    bw, plan = BinaryWriter(s), []
    ops = rng.sample(wire.OPS, 12)
    for _ in range(rng.choice([3000, 5000])):
        op = rng.choice(ops)
        v = op.gen(rng)
        a, b = write_one(ctx, bw, op, v)
        plan.append((op, v, a, b))
        ctx.seen(op.name)
    s.seek(0)
    br = BinaryReader(s)
    for op, v, a, b in plan:
        check_read(ctx, br, op, v, a, b)
    ctx.equal('nothing-left', s.read(), b'')


FAMILIES = [
    Family('sequence', 6000, 200000, sequence),
    Family('interleaved', 1500, 40000, interleaved),
    Family('each', len(wire.OPS) * 25, len(wire.OPS) * 500, each),
    Family('lengths', len(LENS), len(LENS) * 6, lengths),
    Family('bytes', 256, 256, bytes_all),
    Family('list2000', 8, 40, list2000),
    Family('huge', 128, 640, huge),
    Family('long-stream', 16, 320, long_stream),
    Family('hexlike-uint', 40, 400, hexlike_uint),
]

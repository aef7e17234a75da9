"""
Catalogue of stream operations: for each, a value generator, the write call, the bytes the NEO
wire format prescribes (struct and int.to_bytes here, not neocore), the matching read call and
the value it must give.
"""
import io
import struct
from decimal import Decimal  # noqa: F401

from neocore.Fixed8 import Fixed8
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from vlib import gen, oracle, ser, ser2

HEXSET = set(b'0123456789abcdefABCDEF')


def hexlike(b):
    return len(b) % 2 == 0 and len(b) > 0 and all(c in HEXSET for c in b)


def nonhex(rng, n):
    """n raw bytes that are not all hexadecimal digits (known finding KF1 covers those)"""
    b = gen.bytestr(rng, n)
    if hexlike(b):
        b = bytes([b[0] | 0x80]) + b[1:]
    return b


class Op:
    """name, gen(rng)->value, wire(value)->bytes, write(ctx, bw, value)->Outcome, read(ctx, br, value)->Outcome,
    expect(value)-> value to be read, norm(got)-> comparable"""

    def __init__(self, name, gen, wire, write, read, expect=None, norm=None, feat=None, weight=1):
        self.name, self.gen, self.wire, self.write, self.read = name, gen, wire, write, read
        self.expect = expect or (lambda v: v)
        self.norm = norm or (lambda v: v)
        self.feat = feat or (lambda v: 0)
        self.weight = weight


def ints():
    out = []
    for bits, letter in ((8, ''), (16, ''), (32, ''), (64, '')):
        for signed in (True, False):
            base = ('Int%d' if signed else 'UInt%d') % bits
            for endian in (None, '<', '>'):
                def mk(bits=bits, signed=signed, base=base, endian=endian):
                    g = (lambda rng: gen.sint(rng, bits)) if signed else (lambda rng: gen.uint(rng, bits))
                    order = 'big' if endian == '>' else 'little'
                    kw = {} if endian is None else {'endian': endian}
                    return Op(base + (endian or ''), g,
                              lambda v: v.to_bytes(bits // 8, order, signed=signed),
                              lambda ctx, bw, v: ctx.call('Write' + base, getattr(bw, 'Write' + base), v, **kw),
                              lambda ctx, br, v: ctx.call('Read' + base, getattr(br, 'Read' + base), **kw),
                              norm=lambda v: (type(v) is int, v), expect=lambda v: (True, v),
                              feat=lambda v: (v.bit_length(), v < 0))
                out.append(mk())
    return out


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-45, 1.401298464324817e-45, 3.4028234663852886e+38, 5e-324, 1.7976931348623157e308,
          2.2250738585072014e-308, float('inf'), float('-inf'), float('nan'), 0.1, 1 / 3, 16777216.0, 16777217.0, 9007199254740993.0]


def gen_double(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice(FLOATS)
    if k == 1:
        return float(gen.sint(rng, 64))
    if k == 2:
        return rng.uniform(-1e6, 1e6)
    v = struct.unpack('<d', rng.randbytes(8))[0]
    return v


def gen_float(rng):
    if rng.random() < .5:
        return struct.unpack('<f', rng.randbytes(4))[0]
    while True:
        v = gen_double(rng)
        try:
            return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            pass


def fl(letter, endian):
    return (endian or '<') + letter


def floats():
    out = []
    for name, letter, g in (('Float', 'f', gen_float), ('Double', 'd', gen_double)):
        for endian in (None, '<', '>'):
            def mk(name=name, letter=letter, g=g, endian=endian):
                kw = {} if endian is None else {'endian': endian}
                f = (endian or '<') + letter
                # NaN compares by being NaN, everything else by its bits (-0.0 is not 0.0)
                norm = lambda v: 'nan' if isinstance(v, float) and v != v else (type(v) is float, struct.pack('<d', v))
                return Op(name + (endian or ''), g, lambda v: struct.pack(f, v),
                          lambda ctx, bw, v: ctx.call('Write' + name, getattr(bw, 'Write' + name), v, **kw),
                          lambda ctx, br, v: ctx.call('Read' + name, getattr(br, 'Read' + name), **kw),
                          norm=norm, expect=norm, feat=lambda v: (v != v, struct.pack('<d', v)[6:]))
            out.append(mk())
    return out


ENCODINGS = ['utf-8', 'utf-8', 'utf-8', 'utf-16', 'utf-16-le', 'utf-32', 'utf-16-be', 'latin-1', 'ascii', 'cp037', 'utf-8-sig', 'gb18030']


def gen_encoded(rng):
    enc = rng.choice(ENCODINGS)
    s = gen.text(rng)
    if enc in ('latin-1', 'ascii', 'cp037'):
        s = s.encode(enc, 'ignore').decode(enc)
    return s, enc


def gen_fixed(rng):
    s = gen.text(rng, rng.randrange(0, 40) if rng.random() < .8 else gen.length(rng, 0))
    s = s.rstrip('\0')
    n = len(s.encode('utf-8'))
    return s, n + rng.choice([0, 0, 1, 2, 3, 7, 32, rng.randrange(0, 300)])


def gen_hashes(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 252, 253, 254, 300]) if rng.random() < .3 else rng.randrange(0, 6)
    return repeats(rng, [gen.bytestr(rng, 32) for _ in range(n)])


def repeats(rng, items):
    """sometimes a list with equal, and identical, elements next to each other and apart"""
    if items and rng.random() < .25:
        pool = items[:rng.randrange(1, 4)]
        return [rng.choice(pool) for _ in items]
    return items


def hexform(ctx_rng_state, items):
    return items


def hash_arg(i, b):
    """hash lists are given as text or bytes of hexadecimal digits, either case"""
    h = b[::-1].hex()
    k = (b[0] + i // 3) % 4
    return [h, h.encode(), h.upper(), h.upper().encode()][k]


def gen_item(rng):
    return ser.Item(gen.uint(rng, 32), gen.bytestr(rng, big=0.002), gen.bytestr(rng, big=0))


def item_wire(i):
    return i.n.to_bytes(4, 'little') + oracle.varint(len(i.s)) + i.s + len(i.b).to_bytes(2, 'little') + i.b


def gen_box(rng):
    return ser2.Box([ser.Small(gen.uint(rng, 64)) for _ in range(rng.randrange(4))], [ser2.Small(gen.uint(rng, 40)) for _ in range(rng.randrange(4))])


def gen_array(rng):
    kind = rng.choice(['Item', 'Item', 'Small', 'UInt160', 'UInt256', 'Empty', 'None', 'Small2', 'Box'])
    n = rng.choice([0, 1, 2, 252, 253, 254, 256]) if rng.random() < .15 else rng.randrange(0, 5)
    if kind == 'None':
        return kind, None
    if kind == 'Item':
        return kind, repeats(rng, [gen_item(rng) for _ in range(min(n, 6))])
    if kind == 'Small':
        return kind, repeats(rng, [ser.Small(gen.uint(rng, 64)) for _ in range(n)])
    if kind == 'Small2':
        return kind, [ser2.Small(gen.uint(rng, 40)) for _ in range(n)]
    if kind == 'Box':
        return kind, repeats(rng, [gen_box(rng) for _ in range(min(n, 20))])
    if kind == 'Empty':
        return kind, [ser.Empty() for _ in range(n)]
    cls, w = (UInt160, 20) if kind == 'UInt160' else (UInt256, 32)
    return kind, repeats(rng, [cls(data=nonhex(rng, w)) for _ in range(n)])


CLASS_PATH = {'Item': 'vlib.ser.Item', 'Small': 'vlib.ser.Small', 'Empty': 'vlib.ser.Empty', 'None': 'vlib.ser.Small',
              'Small2': 'vlib.ser2.Small', 'Box': 'vlib.ser2.Box', 'UInt160': 'neocore.UInt160.UInt160', 'UInt256': 'neocore.UInt256.UInt256'}


def elem_key(e):
    return e.key() if hasattr(e, 'key') else bytes(e.Data)


def array_wire(v):
    kind, items = v
    if items is None:
        return b'\0'
    out = [oracle.varint(len(items))]
    for e in items:
        if kind == 'Item':
            out.append(item_wire(e))
        elif kind == 'Small':
            out.append(e.v.to_bytes(8, 'little'))
        elif kind == 'Small2':
            out.append(e.v.to_bytes(5, 'big'))
        elif kind == 'Box':
            out.append(array_wire(('Small', e.a)) + array_wire(('Small2', e.b)) + b'\x5a')
        elif kind != 'Empty':
            out.append(bytes(e.Data))
    return b''.join(out)


def array_norm(got):
    return [(type(e).__module__, type(e).__name__, elem_key(e)) for e in got] if isinstance(got, list) else got


def exactly(typ):
    return lambda v: (isinstance(v, typ), bytes(v) if isinstance(v, (bytes, bytearray)) else v)


def others():
    out = []
    A = out.append
    A(Op('Bool', lambda rng: rng.choice([True, False] * 6 + [0, 1, 2, 3, 128, 255, 256, -1]), lambda v: b'\1' if v else b'\0',
         lambda ctx, bw, v: ctx.call('WriteBool', bw.WriteBool, v), lambda ctx, br, v: ctx.call('ReadBool', br.ReadBool),
         norm=lambda v: (type(v) is bool, v), expect=lambda v: (True, bool(v)), feat=lambda v: (type(v) is bool, v)))
    A(Op('Char', lambda rng: rng.randbytes(1), lambda v: v,
         lambda ctx, bw, v: ctx.call('WriteChar', bw.WriteChar, v), lambda ctx, br, v: ctx.call('ReadChar', br.ReadChar),
         feat=lambda v: v[0] >> 4))
    A(Op('Byte.int', lambda rng: gen.uint(rng, 8), lambda v: bytes([v]),
         lambda ctx, bw, v: ctx.call('WriteByte', bw.WriteByte, v), lambda ctx, br, v: ctx.call('ReadByte', br.ReadByte),
         feat=lambda v: v >> 4))
    A(Op('Byte.bytes', lambda rng: rng.randbytes(1), lambda v: v,
         lambda ctx, bw, v: ctx.call('WriteByte', bw.WriteByte, v), lambda ctx, br, v: ctx.call('ReadByte', br.ReadByte, do_ord=False),
         feat=lambda v: v[0] >> 4))
    A(Op('Byte.str', lambda rng: chr(rng.randrange(128)), lambda v: v.encode(),
         lambda ctx, bw, v: ctx.call('WriteByte', bw.WriteByte, v), lambda ctx, br, v: ctx.call('ReadByte', br.ReadByte),
         expect=lambda v: ord(v), feat=lambda v: ord(v) >> 4))
    A(Op('Bytes', lambda rng: gen.bytestr(rng), lambda v: v,
         lambda ctx, bw, v: ctx.call('WriteBytes', bw.WriteBytes, v, unhex=False),
         lambda ctx, br, v: ctx.call('ReadBytes', br.ReadBytes, len(v)), norm=bytes, feat=lambda v: len(v).bit_length()))
    A(Op('Bytes.array', lambda rng: bytearray(gen.bytestr(rng)), bytes,
         lambda ctx, bw, v: ctx.call('WriteBytes', bw.WriteBytes, v, unhex=False),
         lambda ctx, br, v: ctx.call('SafeReadBytes', br.SafeReadBytes, len(v)), expect=bytes, norm=bytes, feat=lambda v: len(v).bit_length()))
    A(Op('Bytes.hex', lambda rng: gen.bytestr(rng), lambda v: v,
         lambda ctx, bw, v: ctx.call('WriteBytes(hex)', bw.WriteBytes, v.hex().encode() if len(v) % 2 else v.hex().upper()),
         lambda ctx, br, v: ctx.call('SafeReadBytes', br.SafeReadBytes, len(v)), norm=bytes, feat=lambda v: len(v).bit_length()))
    for endian in (None, '<'):
        kw = {} if endian is None else {'endian': endian}
        A(Op('VarInt' + (endian or ''), lambda rng: gen.uint(rng, rng.choice([8, 16, 17, 32, 33, 64])), oracle.varint,
             lambda ctx, bw, v, kw=kw: ctx.call('WriteVarInt', bw.WriteVarInt, v, **kw),
             lambda ctx, br, v: ctx.call('ReadVarInt', br.ReadVarInt, max=max(v, (1 << 63) - 1)) if v % 2 or v >> 63 else ctx.call('ReadVarInt', br.ReadVarInt),
             norm=lambda v: (type(v) is int, v), expect=lambda v: (True, v), feat=lambda v: (v.bit_length(), v in (0xfc, 0xfd, 0xffff, 0x10000)),
             weight=3))
    A(Op('VarBytes', lambda rng: gen.bytestr(rng), lambda v: oracle.varint(len(v)) + v,
         lambda ctx, bw, v: ctx.call('WriteVarBytes', bw.WriteVarBytes, v),
         lambda ctx, br, v: ctx.call('ReadVarBytes', br.ReadVarBytes, **({'max': len(v)} if len(v) % 2 else {})),
         norm=bytes, feat=lambda v: (len(v).bit_length(), hexlike(v)), weight=3))
    A(Op('VarString.bytes', lambda rng: gen.bytestr(rng), lambda v: oracle.varint(len(v)) + v,
         lambda ctx, bw, v: ctx.call('WriteVarString', bw.WriteVarString, v),
         lambda ctx, br, v: ctx.call('ReadVarString', br.ReadVarString, **({'max': len(v)} if len(v) % 2 else {})),
         norm=bytes, feat=lambda v: (len(v).bit_length(), hexlike(v))))

    def enc(v):
        return v[0].encode(v[1])

    A(Op('VarString.text', gen_encoded, lambda v: oracle.varint(len(enc(v))) + enc(v),
         lambda ctx, bw, v: ctx.call('WriteVarString', bw.WriteVarString, v[0], **({} if v[1] == 'utf-8' else {'encoding': v[1]})),
         lambda ctx, br, v: ctx.call('ReadVarString', br.ReadVarString), expect=enc, norm=bytes,
         feat=lambda v: (v[1], len(v[0]).bit_length(), v[0].isascii()), weight=3))
    A(Op('String', lambda rng: gen.bytestr(rng, rng.randrange(0, 256)), lambda v: bytes([len(v)]) + v,
         lambda ctx, bw, v: ctx.call('WriteUInt8+WriteBytes', lambda: (bw.WriteUInt8(len(v)), bw.WriteBytes(v, unhex=False))),
         lambda ctx, br, v: ctx.call('ReadString', br.ReadString), norm=bytes, feat=lambda v: len(v).bit_length()))
    A(Op('FixedString', gen_fixed, lambda v: v[0].encode().ljust(v[1], b'\0'),
         lambda ctx, bw, v: ctx.call('WriteFixedString', bw.WriteFixedString, v[0], v[1]),
         lambda ctx, br, v: ctx.call('ReadFixedString', br.ReadFixedString, v[1]), expect=lambda v: v[0].encode(), norm=bytes,
         feat=lambda v: (v[1].bit_length(), v[1] - len(v[0].encode()) if v[1] - len(v[0].encode()) < 3 else 3, v[0].isascii()), weight=2))
    for name, cls, w in (('UInt160', UInt160, 20), ('UInt256', UInt256, 32)):
        def mk(name=name, cls=cls, w=w):
            A(Op(name, lambda rng: nonhex(rng, w), lambda v: v,
                 lambda ctx, bw, v: ctx.call('Write' + name, getattr(bw, 'Write' + name), cls(data=bytearray(v))),
                 lambda ctx, br, v: ctx.call('Read' + name, getattr(br, 'Read' + name)),
                 norm=lambda g: (type(g) is cls, bytes(g.Data)), expect=lambda v: (True, v), feat=lambda v: (v[0] >> 4, v[-1] >> 4)))

            def deser(br):
                u = cls()
                u.Deserialize(br)
                return u
            A(Op(name + '.self', lambda rng: nonhex(rng, w), lambda v: v,
                 lambda ctx, bw, v: ctx.call(name + '.Serialize', cls(data=v).Serialize, bw),
                 lambda ctx, br, v: ctx.call(name + '.Deserialize', deser, br),
                 norm=lambda g: (type(g) is cls, bytes(g.Data)), expect=lambda v: (True, v), feat=lambda v: (v[0] >> 4, v[-1] >> 4)))
        mk()
    A(Op('Hashes', gen_hashes, lambda v: oracle.varint(len(v)) + b''.join(v),
         lambda ctx, bw, v: ctx.call('WriteHashes', bw.WriteHashes, [hash_arg(i, b) for i, b in enumerate(v)]),
         lambda ctx, br, v: ctx.call('ReadHashes', br.ReadHashes), expect=lambda v: [b[::-1].hex() for b in v],
         norm=lambda g: [str(h).lower() for h in g] if isinstance(g, list) else g, feat=lambda v: (len(v).bit_length(), any(map(hexlike, v)))))
    A(Op('Fixed8', gen.amount, lambda v: v.to_bytes(8, 'little', signed=True),
         lambda ctx, bw, v: ctx.call('WriteFixed8', bw.WriteFixed8, Fixed8(v)), lambda ctx, br, v: ctx.call('ReadFixed8', br.ReadFixed8),
         norm=lambda g: (type(g) is Fixed8, g.value), expect=lambda v: (True, v), feat=lambda v: (v.bit_length(), v < 0)))
    A(Op('Array', gen_array, array_wire,
         lambda ctx, bw, v: ctx.call('WriteSerializableArray', bw.WriteSerializableArray, v[1]),
         lambda ctx, br, v: ctx.call('ReadSerializableArray', br.ReadSerializableArray, CLASS_PATH[v[0]], **({'max': len(v[1])} if v[1] else {})),
         expect=lambda v: array_norm(v[1] or []), norm=array_norm, feat=lambda v: (v[0], len(v[1] or []).bit_length()), weight=2))
    return out


OPS = ints() + floats() + others()
WEIGHTS = [o.weight for o in OPS]
BY_NAME = {o.name: o for o in OPS}


class SpyStream(io.BytesIO):
    """in-memory stream that counts its calls"""

    def __init__(self, *a):
        super().__init__(*a)
        self.writes = self.reads = 0

    def write(self, b):
        self.writes += 1
        return super().write(b)

    def read(self, n=-1):
        self.reads += 1
        return super().read(n)

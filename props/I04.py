import errno
import io
import struct
from vlib.core import Family
from vlib import gen, keys, oracle, ser, wire
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.Cryptography.ECCurve import ECDSA

PROP = 'I04'


class Broken(Exception):
    pass


def fault(rng):
    return rng.choice([lambda: OSError(errno.ENOSPC, 'No space left on device'), lambda: OSError(errno.EIO, 'Input/output error'), lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe'),
                       lambda: ConnectionResetError('reset'), lambda: TimeoutError('timed out'), lambda: Broken('stream'), lambda: ValueError('I/O operation on closed file.'),
                       lambda: BlockingIOError(errno.EAGAIN, 'again', 0), lambda: EOFError('end'), lambda: MemoryError(),
                       lambda: InterruptedError(errno.EINTR, 'Interrupted system call'), lambda: ConnectionAbortedError('aborted'), lambda: PermissionError(errno.EPERM, 'not permitted'),
                       lambda: io.UnsupportedOperation('write'), lambda: NotImplementedError(), lambda: struct.error('stream'), lambda: RuntimeError('closed')])


class Faulty(io.BytesIO):
    """an in-memory stream that fails from its n-th read or write on until it is repaired"""

    def __init__(self, data=b''):
        super().__init__(data)
        self.arm(None)

    def arm(self, at, make=None, partial=0, short=None, once=False, eat=0):
        self.calls, self.at, self.make, self.partial, self.hit, self.short, self.once, self.eat = 0, at, make, partial, 0, short, once, eat

    def failing(self):
        return self.at is not None and (self.calls == self.at + 1 if self.once else self.calls > self.at)

    def repair(self):
        self.at = None

    def write(self, b):
        self.calls += 1
        if self.failing():
            self.hit += 1
            if self.hit == 1 and self.partial:
                super().write(bytes(b)[:self.partial])
            raise self.make()
        return super().write(b)

    def read(self, n=-1):
        self.calls += 1
        if self.failing():
            if self.short is not None:
                if self.calls == self.at + 1 and n > 1:
                    self.hit += 1
                    return super().read(min(n - 1, self.short))
                return super().read(n)
            self.hit += 1
            if self.hit == 1:
                self.asked = n
                if self.eat:
                    super().read(min(n, self.eat) if n >= 0 else self.eat)       # these bytes are lost
            raise self.make()
        return super().read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def gen_key(rng):
    return oracle.pub_of(oracle.b32(gen.uint(rng, 250) + 1))


KEY = wire.Op('PublicKey', gen_key, oracle.compress,
              lambda ctx, bw, v: ctx.call('Serialize', ECDSA.secp256r1().Curve.point(*v).Serialize, bw),
              lambda ctx, br, v: ctx.call('Deserialize_Secp256r1', ECDSA.Deserialize_Secp256r1, br),
              norm=lambda g: (g.x.value, g.y.value), expect=lambda v: tuple(v))
OPS = [o for o in wire.OPS] + [KEY] * 2
# the first byte of these is read by ReadByte, which gives 0 for a stream it cannot read (documented)
SOFT = ('VarInt', 'VarBytes', 'VarString', 'Hashes', 'Array', 'Byte')
# these may come back short when the stream delivers less (documented)
LENIENT = ('VarBytes', 'Hashes', 'Bytes', 'Bytes.hex', 'FixedString', 'Array', 'Byte')


def soft(op):
    return op.name.startswith(SOFT) and not op.name.startswith(('Bytes', 'ByteA'))


def strict(op):
    return not (op.name in LENIENT or op.name.startswith(('VarBytes', 'Hashes', 'FixedString', 'Byte.', 'Array')))


def points(rng, n):
    return range(n) if n <= 12 else sorted(set(list(range(5)) + [n - 1, n - 2] + [rng.randrange(n) for _ in range(5)]))


def writes(ctx):
    """every write call of every typed write fails once"""
    rng = ctx.rng
    op = OPS[ctx.index % len(OPS)]
    v = op.gen(rng)
    w = op.wire(v)
    spy = wire.SpyStream()
    ctx.returned('write-accepted', op.write(ctx, BinaryWriter(spy), v), op.name)
    for k in points(rng, spy.writes):
        pre = rng.randbytes(rng.choice([0, 0, 1, 40]))
        s = Faulty()
        s.write(pre)
        bw = BinaryWriter(s)
        s.arm(k, fault(rng), rng.choice([0, 0, 1, 2, 3, 7]))
        out = op.write(ctx, bw, v)
        ctx.check('fault-met', True)
        if s.hit:
            ctx.refused('failed-write-reported', out, op.name, v, 'the stream failed at its write %d' % (k + 1))
        s.repair()
        got = s.getvalue()
        ctx.check('leading-part-only', got[:len(pre)] == pre and w.startswith(got[len(pre):]), op.name, 'has left', got[len(pre):], 'of', w)
        # once the stream works the same writer writes the same value
        s.seek(len(pre))
        s.truncate()
        ctx.returned('write-after-repair', op.write(ctx, bw, v), op.name)
        ctx.equal('write-after-repair', s.getvalue(), pre + w, op.name)
        ctx.seen(op.name, min(k, 5), s.partial)


def reads(ctx):
    """every read call of every typed read fails once"""
    rng = ctx.rng
    op = OPS[ctx.index % len(OPS)]
    v = op.gen(rng)
    w = op.wire(v)
    pre = rng.randbytes(rng.choice([0, 3]))
    tail = rng.randbytes(8)
    spy = wire.SpyStream(pre + w + tail)
    spy.seek(len(pre))
    ctx.returned('read-accepted', op.read(ctx, BinaryReader(spy), v), op.name)
    n = spy.reads
    for k in points(rng, n):
        s = Faulty(pre + w + tail)
        s.seek(len(pre))
        br = BinaryReader(s)
        s.arm(k, fault(rng))
        out = op.read(ctx, br, v)
        ctx.check('fault-met', True)
        if s.hit and not (soft(op) and k == 0):
            if op.name == 'Array':
                array_part(ctx, op, v, out, s.tell() - len(pre), s.asked)
            else:
                ctx.refused('failed-read-reported', out, op.name, v, 'the stream failed at its read %d' % (k + 1))
        s.repair()
        s.seek(len(pre))
        got = ctx.returned('read-after-repair', op.read(ctx, br, v), op.name)
        ctx.equal('read-after-repair', op.norm(got), op.expect(v), op.name)
        ctx.equal('read-after-repair', s.read(), tail, op.name)
        ctx.seen(op.name, min(k, 5))


def array_part(ctx, op, v, out, at, asked=None):
    """an array gives exactly the elements that were read whole before the failure"""
    kind, items = v
    if items is None or kind == 'Empty':
        return
    ends = [len(oracle.varint(len(items)))]
    for e in items:
        ends.append(ends[-1] + len(wire.array_wire((kind, [e]))) - 1)
    if at < ends[0]:
        ctx.refused('failed-read-reported', out, 'array count cut off by a failing stream')
        return
    whole = sum(1 for e in ends[1:] if e <= at)
    got = ctx.returned('complete-leading-elements', out)
    if asked == 0 and at in ends[1:] and len(got) == whole - 1:
        # the read that failed was for the nothing at the end of an element
        whole -= 1
    ctx.equal('complete-leading-elements', wire.array_norm(got), wire.array_norm(items[:whole]), 'the stream failed at byte %d of %d' % (at, ends[-1]))


def trickle(ctx):
    """the stream delivers fewer bytes than asked, once; a strict read refuses or gives the right value, never another"""
    rng = ctx.rng
    ops = [o for o in OPS if strict(o)]
    op = ops[ctx.index % len(ops)]
    v = op.gen(rng)
    w = op.wire(v)
    spy = wire.SpyStream(w)
    ctx.returned('read-accepted', op.read(ctx, BinaryReader(spy), v), op.name)
    for k in points(rng, spy.reads):
        for short in (0, 1, 2, 3, 7, 31):
            s = Faulty(w + rng.randbytes(4))
            s.arm(k, short=short)
            out = op.read(ctx, BinaryReader(s), v)
            ctx.check('fault-met', True)
            if s.hit and not out.ok:
                ctx.check('never-another-value', True)
            elif s.hit:
                ctx.equal('never-another-value', op.norm(out.value), op.expect(v), op.name, 'the stream gave %d bytes at its read %d' % (short, k + 1))
            ctx.seen(op.name, min(k, 5), short)


def passing(ctx):
    """one call of the stream fails and the next ones work: an error, or the whole and right result"""
    rng = ctx.rng
    op = OPS[ctx.index % len(OPS)]
    v = op.gen(rng)
    w = op.wire(v)
    spy = wire.SpyStream()
    ctx.returned('write-accepted', op.write(ctx, BinaryWriter(spy), v), op.name)
    for k in points(rng, spy.writes):
        s = Faulty()
        s.arm(k, fault(rng), rng.choice([0, 0, 1, 2, 3, 7]), once=True)
        out = op.write(ctx, BinaryWriter(s), v)
        ctx.check('fault-met', True)
        if out.ok:
            ctx.equal('passing-failure', s.getvalue(), w, op.name, 'the stream failed at its write %d and the write was taken for done' % (k + 1))
        else:
            ctx.check('leading-part-only', w.startswith(s.getvalue()), op.name, 'has left', s.getvalue(), 'of', w)
    tail = rng.randbytes(8)
    spy = wire.SpyStream(w + tail)
    ctx.returned('read-accepted', op.read(ctx, BinaryReader(spy), v), op.name)
    for k in points(rng, spy.reads):
        if soft(op) and k == 0 or op.name == 'Byte' or op.name.startswith('Byte.'):
            continue
        s = Faulty(w + tail)
        s.arm(k, fault(rng), once=True, eat=rng.choice([0, 0, 1, 1, 2, 3, 7, 31]))
        out = op.read(ctx, BinaryReader(s), v)
        ctx.check('fault-met', True)
        if not out.ok:
            continue
        if op.name == 'Array':
            kind, items = v
            if items is not None and kind == 'Small':        # elements with variable-length parts: a lost length byte reads as zero (ReadByte)
                got = wire.array_norm(out.value)
                ctx.check('passing-failure', got == wire.array_norm(items[:len(got)]), 'array elements after a failure of the stream')
            continue
        ctx.equal('passing-failure', op.norm(out.value), op.expect(v), op.name, 'the stream failed at its read %d and the read was taken for done' % (k + 1))
        ctx.seen(op.name, min(k, 5))


class Bad:
    """an element that fails while it is written"""

    def __init__(self, when):
        self.when = when

    def Serialize(self, writer):
        writer.WriteUInt16(0x1234)
        if self.when:
            raise self.when()
        writer.WriteUInt16(0x5678)


def elements(ctx):
    """an element that cannot be written fails the array"""
    rng = ctx.rng
    n = rng.randrange(1, 9)
    k = rng.randrange(n)
    s = io.BytesIO()
    bw = BinaryWriter(s)
    items = [Bad(fault(rng) if i == k else None) for i in range(n)]
    out = ctx.call('WriteSerializableArray', bw.WriteSerializableArray, items)
    ctx.refused('failed-write-reported', out, 'element %d of %d fails' % (k, n))
    full = oracle.varint(n) + b'\x34\x12\x78\x56' * k + b'\x34\x12'
    ctx.check('leading-part-only', full.startswith(s.getvalue()), s.getvalue(), full)
    small = [ser.Small(gen.uint(rng, 64)) for _ in range(3)]
    s.seek(0)
    s.truncate()
    ctx.returned('write-after-repair', ctx.call('WriteSerializableArray', bw.WriteSerializableArray, small))
    ctx.equal('write-after-repair', s.getvalue(), wire.array_wire(('Small', small)))
    ctx.seen(n, k)


def sequences(ctx):
    """several values written and read with one writer and reader, the stream failing now and then"""
    rng = ctx.rng
    s = Faulty()
    bw, plan = BinaryWriter(s), []
    for _ in range(rng.randrange(2, 14)):
        op = rng.choice(OPS)
        v = op.gen(rng)
        w = op.wire(v)
        start = s.tell()
        if rng.random() < .5:
            s.arm(rng.randrange(3), fault(rng), rng.choice([0, 1, 2]))
            out = op.write(ctx, bw, v)
            if s.hit:
                ctx.check('fault-met', True)
                ctx.refused('failed-write-reported', out, op.name, v)
                s.repair()
                ctx.check('leading-part-only', w.startswith(s.getvalue()[start:]), op.name)
                s.seek(start)
                s.truncate()
                ctx.returned('write-after-repair', op.write(ctx, bw, v), op.name)
            else:
                ctx.returned('write-accepted', out, op.name)
            s.repair()
        else:
            ctx.returned('write-accepted', op.write(ctx, bw, v), op.name)
        ctx.equal('write-after-repair', s.getvalue()[start:], w, op.name)
        plan.append((op, v, start, s.tell()))
        ctx.seen(op.name)
    s.seek(0)
    br = BinaryReader(s)
    for op, v, a, b in plan:
        if rng.random() < .5:
            k = rng.randrange(1, 3)
            s.arm(k, fault(rng))
            out = op.read(ctx, br, v)
            if s.hit and op.name != 'Array':
                ctx.check('fault-met', True)
                ctx.refused('failed-read-reported', out, op.name, v)
            s.repair()
            s.seek(a)
        got = ctx.returned('read-after-repair', op.read(ctx, br, v), op.name)
        ctx.equal('read-after-repair', op.norm(got), op.expect(v), op.name)
        ctx.equal('read-after-repair', s.tell(), b, op.name)


FAMILIES = [Family('writes', len(OPS) * 100, len(OPS) * 1500, writes), Family('reads', len(OPS) * 100, len(OPS) * 1500, reads), Family('trickle', 3000, 40000, trickle),
            Family('passing', len(OPS) * 60, len(OPS) * 1000, passing), Family('elements', 400, 4000, elements), Family('sequences', 6000, 60000, sequences)]

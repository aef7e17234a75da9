import copy
import io
import pickle
from vlib.core import Family
from vlib import gen, wire
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.MerkleTree import MerkleTree

PROP = 'U03'
CLS = [(UInt160, 20), (UInt256, 32)]


def plain_or_special(rng, w):
    """the bytes of a value; often one that real data is full of, so that equal values meet"""
    if rng.random() < .35:
        return rng.choice([bytes(w), b'\xff' * w, b'\1' + bytes(w - 1), bytes(w - 1) + b'\1', b'\0\x80' * (w // 2)])
    return wire.nonhex(rng, w)


class Tracked:
    """a value of the code under test and the bytes the model says it holds"""

    def __init__(self, v, b, cls, w):
        self.v, self.b, self.cls, self.w = v, b, cls, w
        self.handed = []            # arrays and texts it gave out, with the bytes they had


def state(ctx, t, known_hash, why):
    v, b = t.v, t.b
    for arr, was in t.handed:
        ctx.check('handed-out-bytes-kept', bytes(arr) == was, why, 'an array given out earlier reads', bytes(arr), 'and was', was)
    ctx.check('type-and-width', type(v) is t.cls and v.Size == t.w and len(v.ToArray()) == t.w, why, v)
    ctx.check('bytes-as-modelled', bytes(v.ToArray()) == b, why, 'holds', bytes(v.ToArray()), 'should hold', b)
    ctx.check('text-as-modelled', v.ToString() == b[::-1].hex() and str(v) == b[::-1].hex() and v.ToString2() == b.hex()
              and v.To0xString() == '0x' + b[::-1].hex() and v.ToBytes() == b[::-1].hex().encode(), why, v, b)
    fresh = t.cls(data=b)
    ctx.check('hash-as-fresh-value', hash(v) == hash(fresh), why, 'hash %d, a fresh equal value has %d' % (hash(v), hash(fresh)), b)
    ctx.check('equal-to-fresh-value', v == fresh and fresh == v and v.CompareTo(fresh) == 0, why, v, b)
    ctx.check('order-as-modelled', (v < t.cls(data=bytes(t.w))) is False and (v > t.cls(data=bytes(t.w))) is any(b), why, v)
    ctx.check('found-in-dictionary', {v: 1}.get(fresh) == 1 and {fresh: 1}.get(v) == 1, why, v)


def history(ctx):
    rng = ctx.rng
    vals, buffers, streams = [], [], []
    table, members = {}, []          # dictionary in use, with the values placed in it

    def check_all(why):
        for t in vals:
            state(ctx, t, None, why)
        for t, key_bytes, marker in members:
            ctx.check('place-in-dictionary', table.get(t.v) == marker and table.get(t.cls(data=key_bytes)) == marker, why, t.v, key_bytes)

    for step in range(rng.randrange(4, 26)):
        cls, w = rng.choice(CLS)
        k = rng.randrange(14)
        if k <= 1 or not vals:
            b = plain_or_special(rng, w)
            if vals and rng.random() < .2:
                o = rng.choice(vals)
                if o.w == w:
                    b = o.b
            src = rng.randrange(5)
            if src == 0:
                buf = bytearray(b)
                buffers.append(buf)
                v = ctx.returned('constructed', ctx.call(cls.__name__, cls, data=buf))
            elif src == 1:
                v = ctx.returned('constructed', ctx.call(cls.__name__, cls, data=b))
            elif src == 2:
                s = io.BytesIO(b + rng.randbytes(3))
                streams.append(s)
                v = ctx.returned('constructed', ctx.call('Read' + cls.__name__, getattr(BinaryReader(s), 'Read' + cls.__name__)))
            elif src == 3:
                v = ctx.returned('constructed', ctx.call('ParseString', cls.ParseString, b[::-1].hex()))
            else:
                v, b = ctx.returned('constructed', ctx.call(cls.__name__, cls)), bytes(w)
            vals.append(Tracked(v, b, cls, w))
            what = 'construct'
        elif k == 2 and buffers:
            buf = rng.choice(buffers)
            j = rng.randrange(4)
            if j == 0:
                for i in range(len(buf)):
                    buf[i] ^= 0xff
            elif j == 1:
                buf.reverse()
            elif j == 2:
                buf.clear()
            else:
                buf.extend(b'more')
            ctx.note('buffer changed', str(j))
            what = 'buffer changed'
        elif k == 3 and streams:
            s = rng.choice(streams)
            s.seek(0)
            s.write(rng.randbytes(40))
            ctx.note('stream overwritten', '')
            what = 'stream overwritten'
        elif k in (4, 5, 6):
            # re-read in place; a value in the dictionary is taken out first, as a user must
            t = rng.choice(vals)
            for m in [m for m in members if m[0] is t]:
                members.remove(m)
                table.pop(t.v, None)
            new = plain_or_special(rng, t.w)
            if rng.random() < .2:
                i = rng.randrange(t.w)
                new = t.b[:i] + bytes([t.b[i] ^ 1]) + t.b[i + 1:]
            s = io.BytesIO(new + rng.randbytes(rng.randrange(3)))
            streams.append(s)
            ctx.returned('re-read', ctx.call('Deserialize', t.v.Deserialize, BinaryReader(s)))
            ctx.equal('re-read-consumed', s.tell(), t.w)
            t.b = new
            what = 're-read'
        elif k in (7, 8):
            t = rng.choice(vals)
            n = rng.choice([0, 1, t.w - 1, rng.randrange(t.w)])
            ctx.refused('short-re-read-refused', ctx.call('Deserialize(short)', t.v.Deserialize, BinaryReader(io.BytesIO(rng.randbytes(n)))), '%d of %d bytes' % (n, t.w))
            what = 'short re-read'
        elif k == 9:
            t = rng.choice(vals)
            marker = 'm%d' % step
            table.pop(t.v, None)         # so that this object is the key, not an equal one placed earlier
            table[t.v] = marker
            members[:] = [m for m in members if not (m[0].w == t.w and m[1] == t.b)]
            members.append((t, t.b, marker))
            ctx.note('placed in dictionary', marker)
            what = 'dictionary'
        elif k == 10:
            t = rng.choice(vals)
            s = io.BytesIO()
            ctx.returned('serialized', ctx.call('Serialize', t.v.Serialize, BinaryWriter(s)))
            ctx.equal('serialized', s.getvalue(), t.b)
            what = 'serialize'
        elif k == 11:
            t = rng.choice(vals)
            arr = ctx.returned('used', ctx.call('ToArray', t.v.ToArray))
            t.handed = t.handed[-3:] + [(arr, t.b)]
            for f in rng.sample(['ToString', 'ToString2', 'To0xString', 'ToBytes', 'ToArray', 'GetHashCode'], 3):
                ctx.returned('used', ctx.call(f, getattr(t.v, f)))
            if t.w == 20:
                ctx.returned('used', ctx.call('ToAddress', Crypto.ToAddress, t.v))
            else:
                ctx.returned('used', ctx.call('ComputeRoot', MerkleTree.ComputeRoot, [t.v, t.v, UInt256()]))
            what = 'use'
        elif k == 12:
            a, b = rng.choice(vals), rng.choice(vals)
            ctx.returned('compared', ctx.call('==', lambda: a.v == b.v))
            if a.w == b.w:
                c = ctx.returned('compared', ctx.call('CompareTo', a.v.CompareTo, b.v))
                ia, ib = int.from_bytes(a.b, 'little'), int.from_bytes(b.b, 'little')
                ctx.check('order-as-modelled', (c > 0) == (ia > ib) and (c < 0) == (ia < ib), a.v, b.v)
            what = 'compare'
        else:
            # a second value from the first one's text or bytes
            t = rng.choice(vals)
            v = ctx.returned('constructed', ctx.call('copy', t.cls, data=t.v.ToArray()) if rng.random() < .5 else ctx.call('ParseString', t.cls.ParseString, t.v.ToString()))
            vals.append(Tracked(v, t.b, t.cls, t.w))
            what = 'copy'
        check_all('after ' + what)
        ctx.seen(step if step < 6 else 6, what)


def rereads(ctx):
    """one value, re-read many times from one stream and from short ones in between"""
    rng = ctx.rng
    cls, w = rng.choice(CLS)
    items = [wire.nonhex(rng, w) for _ in range(rng.randrange(1, 12))]
    s = io.BytesIO(b''.join(items) + rng.randbytes(rng.randrange(w)))
    br = BinaryReader(s)
    t = Tracked(cls(), bytes(w), cls, w)
    keep = []
    for b in items:
        ctx.returned('re-read', ctx.call('Deserialize', t.v.Deserialize, br))
        t.b = b
        state(ctx, t, None, 're-read')
        keep.append(cls(data=t.v.ToArray()))
    ctx.refused('short-re-read-refused', ctx.call('Deserialize(short)', t.v.Deserialize, br))
    state(ctx, t, None, 'after short re-read')
    for k, b in zip(keep, items):
        state(ctx, Tracked(k, b, cls, w), None, 'copy kept')
    ctx.seen(w, len(items))


def make(ctx, cls, b, src):
    w = len(b)
    if src == 0:
        return ctx.call(cls.__name__, cls, data=bytearray(b))
    if src == 1:
        return ctx.call(cls.__name__, cls, data=b)
    if src == 2:
        return ctx.call('Read' + cls.__name__, getattr(BinaryReader(io.BytesIO(b + b'x')), 'Read' + cls.__name__))
    if src == 3:
        return ctx.call('ParseString', cls.ParseString, b[::-1].hex())
    if src == 4:
        return ctx.call('ParseString', cls.ParseString, '0x' + b[::-1].hex().upper())
    if src == 5:
        return ctx.call('Deserialize', reread, cls(), b)
    if src == 6:
        got = ctx.call('ReadSerializableArray', BinaryReader(io.BytesIO(b'\1' + b)).ReadSerializableArray, 'neocore.%s.%s' % (cls.__name__, cls.__name__))
        return got if not got.ok else ctx.call('element', got.value.__getitem__, 0)
    if src == 7:
        return ctx.call(cls.__name__, cls) if not any(b) else ctx.call(cls.__name__, cls, bytearray(b))
    if w == 20:
        return ctx.call('copy', lambda: cls(data=cls(data=b).ToArray()))
    return ctx.call('ComputeRoot', MerkleTree.ComputeRoot, [cls(data=b)])


def reread(v, b):
    v.Deserialize(BinaryReader(io.BytesIO(b)))
    return v


def twins(ctx):
    """equal values made by every route, twice, of which some are then re-read in place"""
    rng = ctx.rng
    cls, w = CLS[ctx.index % 2]
    b = plain_or_special(rng, w) if ctx.index > 3 else bytes(w)
    routes = list(range(9)) * 2
    rng.shuffle(routes)
    vals = [Tracked(ctx.returned('constructed', make(ctx, cls, b, r), r), b, cls, w) for r in routes]
    last = vals[-1].v                # the object that is the key must not be re-read
    table = {last: 'kept'}
    for _ in range(rng.randrange(1, 5)):
        t = rng.choice(vals[:-1])
        new = plain_or_special(rng, w)
        ctx.returned('re-read', ctx.call('Deserialize', t.v.Deserialize, BinaryReader(io.BytesIO(new))))
        t.b = new
        for u, r in zip(vals, routes):
            state(ctx, u, None, 'made by route %d, after a re-read' % r)
        ctx.check('place-in-dictionary', table.get(last) == 'kept' and table.get(cls(data=b)) == 'kept', last, b)
        for r in rng.sample(range(9), 2):
            for x in (b, new):
                state(ctx, Tracked(ctx.returned('constructed', make(ctx, cls, x, r), r), x, cls, w), None, 'made afterwards by route %d' % r)
    ctx.seen(w, any(b), tuple(routes[:3]))


def copies(ctx):
    """copied and pickled values are values of their own, whatever is done to either afterwards"""
    rng = ctx.rng
    cls, w = CLS[ctx.index % 2]
    b = plain_or_special(rng, w)
    how = rng.randrange(4)
    v = ctx.returned('constructed', make(ctx, cls, b, rng.randrange(9)), how)
    if rng.random() < .5:
        hash(v), str(v), v == cls(data=b)
    vals = [Tracked(v, b, cls, w)]
    for _ in range(rng.randrange(1, 4)):
        t = rng.choice(vals)
        f = [copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: pickle.loads(pickle.dumps([x, x], 2))[1]][how]
        vals.append(Tracked(ctx.returned('constructed', ctx.call('copied', f, t.v), how), t.b, cls, w))
        if rng.random() < .5:
            t = rng.choice(vals)
            t.b = plain_or_special(rng, w)
            ctx.returned('re-read', ctx.call('Deserialize', t.v.Deserialize, BinaryReader(io.BytesIO(t.b))))
        for u in vals:
            state(ctx, u, None, 'copied %d' % how)
    ctx.seen('copies', how, w, len(vals))


FAMILIES = [Family('copies', 3000, 30000, copies), Family('twins', 1600, 30000, twins), Family('history', 12000, 60000, history), Family('re-reads', 6000, 30000, rereads)]

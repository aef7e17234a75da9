"""
A sanitizer for values: the workloads of the other properties run again, and every call of theirs is watched for
side effects on what it was given and, later, on what earlier calls returned. What those properties judge is ignored here.
"""
import functools
import importlib
import io
import types
from vlib import kdf
kdf.install()
from vlib import keys, oracle, wire  # noqa: E402
from vlib.core import Family, Ctx, Violation, render  # noqa: E402
from neocore.BigInteger import BigInteger
from neocore.Fixed8 import Fixed8
from neocore.KeyPair import KeyPair
from neocore.UIntBase import UIntBase
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.IO.BinaryWriter import BinaryWriter

PROP = 'G01'
MAX = 300                   # elements looked at per container
MUTATORS = ('Deserialize',)         # changes the object it is called on
KEEP = []                   # results of earlier cases: (value, picture, where from)


class Foreign(BaseException):
    """the workload's own property judged something; not our concern"""


def picture(v, depth=3):
    """an immutable rendering of everything observable in a value; None for values that are not watched"""
    t = type(v)
    if t in (int, str, bytes, bool, float, complex) or v is None:
        return None
    if isinstance(v, bytearray):
        return 'bytearray', bytes(v)
    if isinstance(v, memoryview):
        return 'memoryview', bytes(v)
    if isinstance(v, UIntBase):
        return t.__name__, bytes(v.Data), v.ToString(), hash(v)
    if isinstance(v, Fixed8):
        return t.__name__, repr(v.value), hash_or_none(v)
    if isinstance(v, BigInteger):
        return t.__name__, int(v)
    if isinstance(v, FiniteField.Value):
        return t.__name__, v.value, v.field.p
    if isinstance(v, FiniteField):
        return t.__name__, v.p
    if isinstance(v, EllipticCurve.ECPoint):
        return t.__name__, v.x.value, v.y.value, v.curve.field.p, v.curve.a.value, v.curve.b.value
    if isinstance(v, EllipticCurve):
        return t.__name__, v.field.p, v.a.value, v.b.value
    if isinstance(v, ECDSA):
        return t.__name__, picture(v.G), v.GFn.p, v.ec.a.value, v.ec.b.value
    if isinstance(v, KeyPair):
        return t.__name__, bytes(v.PrivateKey), picture(v.PublicKey), picture(v.PublicKeyHash)
    if depth and isinstance(v, dict):
        return 'dict', tuple((repr(k), content(x, depth - 1)) for k, x in list(v.items())[:MAX])
    if depth and isinstance(v, (list, tuple)):
        return t.__name__, len(v), tuple(content(x, depth - 1) for x in v[:MAX])
    if depth and isinstance(v, (set, frozenset)):
        return t.__name__, tuple(sorted(map(repr, v)))
    return None


def hash_or_none(v):
    try:
        return hash(v)
    except TypeError:
        return None


def content(v, depth):
    p = picture(v, depth)
    if p is None:
        t = type(v)
        return (t.__name__, v) if t in (int, str, bytes, bool, float) else (t.__name__, id(v))
    return p


def buffers(v, depth=2):
    if type(v) is bytearray and v:
        yield v
    elif depth and type(v) in (list, tuple):
        for x in v[:20]:
            yield from buffers(x, depth - 1)


def given(fn, args, kwargs):
    """everything a call gets hold of: arguments, the object it is bound to, what a lambda of the workload closes over"""
    for v in args:
        yield v
    for v in kwargs.values():
        yield v
    while isinstance(fn, functools.partial):
        for v in list(fn.args) + list(fn.keywords.values()):
            yield v
        fn = fn.func
    me = getattr(fn, '__self__', None)
    if me is not None and not isinstance(me, (type, types.ModuleType)):
        yield me
    if isinstance(fn, types.FunctionType) and fn.__closure__:
        for c in fn.__closure__:
            try:
                yield c.cell_contents
            except ValueError:
                pass


class SanCtx(Ctx):
    def __init__(self, outer):
        super().__init__(outer.run, outer.family, outer.index, outer.rng)
        self.outer = outer
        self.history, self.features = outer.history, outer.features
        self.results, self.bufs, self.n = [], [], 0
        self.off = False

    def call(self, op, fn, *args, **kwargs):
        if self.off:
            return super().call(op, fn, *args, **kwargs)
        watched = []
        changes = any(m in str(op) for m in MUTATORS) or getattr(fn, '__name__', '') in MUTATORS
        for v in (list(args) if changes else given(fn, args, kwargs)):
            p = picture(v)
            if p is not None:
                watched.append((v, p))
        out = super().call(op, fn, *args, **kwargs)
        for v, p in watched:
            q = picture(v)
            if q != p:
                raise Violation('argument-unchanged', '%s %s and changed what it was given: %s, was %s' % (op, 'failed' if out.exc else 'returned', render(q), render(p)))
            if self.n < 400:
                self.bufs.extend(b for b in buffers(v) if not owned(b, self.results))
        m = self.run.monitors
        m['argument-unchanged'] = m.get('argument-unchanged', 0) + len(watched)
        self.n += 1
        if out.exc is None and len(self.results) < 200:
            p = picture(out.value)
            if p is not None:
                self.results.append((out.value, p, op))
        return out

    def takes(self, value):
        self.results = [r for r in self.results if r[0] is not value]

    # the judgements of the workload itself are not ours
    def check(self, monitor, cond, *detail):
        if not cond:
            raise Foreign()

    def equal(self, monitor, got, want, *detail):
        if not got == want:
            raise Foreign()

    def returned(self, monitor, out, *detail):
        if out.exc is not None:
            raise Foreign()
        return out.value

    def refused(self, monitor, out, *detail, types=Exception):
        if out.exc is None:
            raise Foreign()

    def known(self, kid, what):
        pass

    def seen(self, *key):
        pass

    def sample(self, text):
        pass


def unchanged(ctx, kept, monitor, when):
    for v, p, op in kept:
        q = picture(v)
        ctx.check(monitor, q == p, 'the result of', op, when, 'reads', render(q), 'and was', render(p))


def watch(ctx, mod, fam):
    inner = SanCtx(ctx)
    ended = 'whole'
    try:
        fam.fn(inner)
    except Foreign:
        ended = 'cut'
    except Violation:
        raise
    except Exception:
        ended = 'cut'       # the workload met something unexpected in the code under test; other properties judge that
    mine = look(ctx, inner)
    ctx.seen(mod.PROP, fam.name, ended, min(inner.n, 40), min(len(inner.results), 20), mine > 0)


def look(ctx, inner):
    """at the end of a case: the results again"""
    unchanged(ctx, inner.results, 'result-unchanged', 'after later calls')
    # the caller reuses the buffers it passed in
    mine, seen = [], set()
    returned = {id(x) for v, p, op in inner.results for x in buffers(v)}
    for b in inner.bufs:
        if id(b) not in seen and id(b) not in returned:
            seen.add(id(b))
            mine.append(b)
    if mine and inner.results:
        saved = [bytes(b) for b in mine]
        try:
            for b in mine:
                for i in range(len(b)):
                    b[i] ^= 0xff
            unchanged(ctx, [(v, p, op) for v, p, op in inner.results if not isinstance(v, (list, tuple, dict))], 'result-independent-of-buffers', 'after the caller reused its buffers')
        finally:
            for b, s in zip(mine, saved):
                b[:] = s
    if ctx.index % 16 == 0 or ctx.index < 8:
        unchanged(ctx, KEEP, 'result-unchanged', 'after later cases')
    for kept in ctx.rng.sample(inner.results, min(2, len(inner.results))):
        if len(KEEP) < 300:
            KEEP.append(kept)
        else:
            KEEP[ctx.rng.randrange(300)] = kept
    x = ctx.run.extra
    x['results_watched'] = x.get('results_watched', 0) + len(inner.results)
    x['buffers_reused'] = x.get('buffers_reused', 0) + len(mine)
    return len(mine)


def owned(b, results):
    """a buffer that belongs to an object returned before (Data of an integer, PrivateKey of a key pair), not to the caller"""
    for v, p, op in results:
        if getattr(v, 'Data', None) is b or getattr(v, 'PrivateKey', None) is b:
            return True
    return False


def arrays(ctx):
    """everything that takes bytes, given writable buffers and lists, one object for several calls"""
    rng = ctx.rng
    s = SanCtx(ctx)
    k = keys.key(rng)
    pt = oracle.pub_of(k)
    xy = oracle.b32(pt[0]) + oracle.b32(pt[1])
    comp = oracle.compress(pt)
    msg = rng.randbytes(rng.choice([0, 1, 5, 64]))
    sig = bytes(Crypto.Sign(msg.hex(), k.hex())) if ctx.index % 8 == 0 else rng.randbytes(64)
    h20, h32 = wire.nonhex(rng, 20), wire.nonhex(rng, 32)
    B = bytearray
    text = B(comp.hex().encode())
    script = B(b'21' + comp.hex().encode() + b'ac')
    hashes = [UInt256(data=rng.randbytes(32)) for _ in range(rng.randrange(1, 9))]
    texts = [B(rng.randbytes(32).hex().encode()) for _ in range(3)]
    flags = B(rng.getrandbits(1) for _ in range(rng.randrange(len(hashes) + 1)))
    tree = MerkleTree(list(hashes))
    st = io.BytesIO()
    w = BinaryWriter(st)
    big = B(rng.randbytes(rng.randrange(1, 40)))
    calls = [
        ('UInt160', UInt160, B(h20)), ('UInt256', UInt256, B(h32)), ('UInt160', UInt160, B(h20[:19])), ('BigInteger.FromBytes', BigInteger.FromBytes, big), ('BigInteger.FromBytes', BigInteger.FromBytes, big, True),
        ('KeyPair', KeyPair, B(k)), ('KeyPair', KeyPair, B(xy + k)), ('KeyPair', KeyPair, B(b'ECS2\x20\0\0\0' + xy + k)), ('KeyPair', KeyPair, B(31)),
        ('Hash160', Crypto.Hash160, B(msg)), ('Hash160Bytes', Crypto.Hash160Bytes, B(msg)), ('Hash256', Crypto.Hash256, B(msg)), ('ToScriptHash', Crypto.ToScriptHash, script), ('ToScriptHash', Crypto.ToScriptHash, B(msg), False),
        ('VerifySignature', Crypto.VerifySignature, msg.hex(), B(sig), B(comp)), ('VerifySignature', Crypto.VerifySignature, B(msg), B(sig), B(xy), False), ('VerifySignature', Crypto.VerifySignature, B(msg.hex().encode()), B(sig), B(xy)),
        ('VerifySignature', Crypto.VerifySignature, msg.hex(), B(sig[:63]), B(comp)), ('VerifySignature', Crypto.VerifySignature, msg.hex(), B(sig), B(comp[:32])), ('VerifySignature', Crypto.VerifySignature, msg.hex(), B(sig), ECDSA.secp256r1().Curve.point(*pt)),
        ('FromBytes_Secp256r1', ECDSA.FromBytes_Secp256r1, B(comp)), ('FromBytes_Secp256r1', ECDSA.FromBytes_Secp256r1, B(b'\x04' + xy)), ('FromBytes_Secp256r1', ECDSA.FromBytes_Secp256r1, B(xy)),
        ('FromBytes_Secp256r1', ECDSA.FromBytes_Secp256r1, B(b'ECS1\x20\0\0\0' + xy)), ('FromBytes_Secp256r1', ECDSA.FromBytes_Secp256r1, B(xy + k)), ('FromBytes_Secp256r1', ECDSA.FromBytes_Secp256r1, B(b'ECS2\x20\0\0\0' + xy + k)),
        ('FromBytes_Secp256r1', ECDSA.FromBytes_Secp256r1, B(xy[:-1] + bytes([xy[-1] ^ 1]))), ('decode_secp256r1', ECDSA.decode_secp256r1, B(comp), False), ('decode_secp256r1', ECDSA.decode_secp256r1, B(b'\x04' + xy), False),
        ('decode_secp256r1', ECDSA.decode_secp256r1, text), ('decode_secp256r1', ECDSA.decode_secp256r1, B(comp[:-1]), False),
        ('scripthash_to_address', Helper.scripthash_to_address, B(h20)), ('pubkey_to_redeem', Helper.pubkey_to_redeem, text), ('redeem_to_scripthash', Helper.redeem_to_scripthash, B(msg)), ('pubkey_to_pubhash', Helper.pubkey_to_pubhash, text),
        ('bin_dbl_sha256', Helper.bin_dbl_sha256, B(msg)), ('bin_hash160Bytes', Helper.bin_hash160Bytes, B(msg)), ('bin_hash160', Helper.bin_hash160, B(msg)), ('double_sha256', Helper.double_sha256, B(msg)), ('xor_bytes', Helper.xor_bytes, B(h32), B(k)),
        ('MerkleTree', MerkleTree, hashes), ('ComputeRoot', MerkleTree.ComputeRoot, hashes), ('Trim', tree.Trim, flags), ('ToHashArray', tree.ToHashArray), ('ComputeRoot', MerkleTree.ComputeRoot, hashes[:1]),
        ('WriteBytes', w.WriteBytes, B(msg)), ('WriteBytes', w.WriteBytes, text), ('WriteBytes', w.WriteBytes, B(msg), False), ('WriteVarBytes', w.WriteVarBytes, B(msg)), ('WriteVarString', w.WriteVarString, B(msg)),
        ('Write2000256List', w.Write2000256List, texts), ('WriteSerializableArray', w.WriteSerializableArray, hashes), ('WriteUInt256', w.WriteUInt256, hashes[0]), ('WriteUInt160', w.WriteUInt160, UInt160(data=h20)),
        ('ToAddress', Crypto.ToAddress, UInt160(data=B(h20))), ('CompareTo', hashes[0].CompareTo, UInt160(data=h20)), ('CompareTo', hashes[0].CompareTo, hashes[-1]), ('==', hashes[0].__eq__, hashes[-1]),
    ]
    calls = rng.sample(calls, rng.randrange(6, 30))
    for c in calls:
        s.call(*c)
    look(ctx, s)
    ctx.seen('arrays', tuple(sorted({c[0] for c in calls}))[:6])


def unreduced(ctx):
    """points and field values given with coordinates that are not reduced keep what they were given"""
    rng = ctx.rng
    s = SanCtx(ctx)
    curve = ECDSA.secp256r1().Curve
    p = curve.field.p
    pts = []
    for _ in range(3):
        x, y = oracle.pub_of(keys.key(rng)) if rng.random() < .8 else (0, 0)
        pts.append(s.call('point', curve.point, x + p * rng.choice([0, 0, 1, -1, 3]), y + p * rng.choice([0, 1, 1, -1, -2])).value)
    A, B, C = pts
    k = rng.choice([0, 1, 2, 3, -1, -2, rng.getrandbits(20), -rng.getrandbits(20)])
    vals = [curve.field.value(rng.randrange(p) + p * rng.choice([0, 1, -1])) for _ in range(2)]
    calls = [('neg', A.__neg__), ('+', A.__add__, B), ('-', A.__sub__, B), ('*', A.__mul__, k), ('==', A.__eq__, B), ('!=', A.__ne__, B), ('<', A.__lt__, B), ('<=', A.__le__, B), ('>', A.__gt__, B), ('>=', A.__ge__, B),
             ('+', A.__add__, A), ('-', A.__sub__, A), ('isoncurve', A.isoncurve), ('iszero', A.iszero), ('IsInfinity', lambda: A.IsInfinity), ('str', A.__str__), ('encode_point', A.encode_point, True), ('encode_point', A.encode_point, False),
             ('sort', sorted, [A, B, C]), ('VerifySignature', Crypto.VerifySignature, '00', bytes(64), A),
             ('v+', vals[0].__add__, vals[1]), ('v*', vals[0].__mul__, vals[1]), ('v/', vals[0].__truediv__, vals[1]), ('v-', vals[0].__neg__), ('v**', vals[0].__pow__, 3), ('v==', vals[0].__eq__, vals[1]), ('v str', vals[0].__str__)]
    for c in rng.sample(calls, rng.randrange(4, len(calls))):
        s.call(*c)
    look(ctx, s)
    ctx.seen('unreduced', k if -3 < k < 4 else 9, tuple((v.x.value // p, v.y.value // p) for v in pts))


# module: (share of its cases at the quick tier, share at the thorough tier, families left out)
SHARES = {'I01': (.4, .2, ()), 'I02': (.3, .1, ('huge',)), 'U01': (.12, .2, ()), 'F01': (.05, .2, ()), 'F02': (.03, .1, ()), 'F03': (.04, .1, ()), 'B01': (.2, .1, ('huge',)),
          'B02': (.05, .1, ()), 'H01': (.3, .2, ()), 'A01': (.2, .2, ()), 'A02': (.05, .1, ('every_edit',)), 'K01': (.08, .05, ()), 'K02': (.15, .1, ()), 'K03': (.2, .1, ('real_scrypt',)),
          'K04': (.1, .1, ('real_scrypt',)), 'C01': (.06, .05, ('common', 'related')), 'C02': (.1, .05, ()), 'E01': (.12, .05, ()), 'E02': (.15, .1, ()), 'E03': (.2, .1, ()),
          'E04': (.25, .1, ()), 'M01': (.15, .1, ('big',)), 'M02': (.15, .1, ('big',)), 'U02': (.1, .1, ()), 'X01': (.05, .1, ())}


def make(name, fam, q, t):
    mod = importlib.import_module('props.' + name)

    def fn(ctx):
        watch(ctx, mod, fam)
    return Family('%s-%s' % (name, fam.name), max(8, int(fam.quick * q)), max(16, int(fam.thorough * t)), fn)


FAMILIES = [Family('arrays', 1200, 24000, arrays), Family('unreduced', 600, 12000, unreduced)] + [make(n, f, q, t) for n, (q, t, skip) in SHARES.items() for f in importlib.import_module('props.' + n).FAMILIES if f.name not in skip]

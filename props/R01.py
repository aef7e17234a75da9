import io
import signal
import sys
import time
import tracemalloc
from decimal import Decimal
from vlib import kdf
kdf.install()
from vlib.core import Family  # noqa: E402
from vlib import gen, keys, oracle, wire  # noqa: E402
from neocore.BigInteger import BigInteger  # noqa: E402
from neocore.bin import cli  # noqa: E402
from neocore.Cryptography.Crypto import Crypto  # noqa: E402
from neocore.Cryptography.ECCurve import ECDSA  # noqa: E402
from neocore.Cryptography.MerkleTree import MerkleTree  # noqa: E402
from neocore.Fixed8 import Fixed8  # noqa: E402
from neocore.IO.BinaryReader import BinaryReader  # noqa: E402
from neocore.KeyPair import KeyPair  # noqa: E402
from neocore.UInt160 import UInt160  # noqa: E402
from neocore.UInt256 import UInt256  # noqa: E402
from neocore.Utils import isValidPublicAddress  # noqa: E402

PROP = 'R01'
TOOL = 4


class Exhausted(BaseException):
    pass


class Meter:
    """counts the lines executed (by anybody) and the stream calls of one call, and stops it beyond a budget"""
    installed = False
    lines = budget = 0
    on = False

    @classmethod
    def install(cls):
        if cls.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'verif-meter')
        mon.register_callback(TOOL, mon.events.LINE, cls.line)
        mon.register_callback(TOOL, mon.events.JUMP, cls.jump)
        cls.installed = True

    @classmethod
    def line(cls, code, line):
        cls.lines += 1
        if cls.on and cls.lines > cls.budget:
            cls.on = False
            raise Exhausted('more than %d lines executed' % cls.budget)

    @classmethod
    def jump(cls, code, a, b):
        cls.lines += 1
        if cls.on and cls.lines > cls.budget:
            cls.on = False
            raise Exhausted('more than %d lines and jumps executed' % cls.budget)


LINES = (100000, 40)          # constant part, per input byte
CURVE_LINES = 2000000          # constant part where a scalar is multiplied (an honest signature verification costs up to about 650000)
CURVE_OPS = ('VerifySignature', 'multiply', 'PrivateKeyFromNEP2', 'KeyPair', 'decode', 'decode_secp256r1', 'Deserialize_Secp256r1', 'FromBytes', 'ReadSerializableArray')
BYTES = (1 << 22, 200)         # peak of newly allocated memory


def measured(ctx, op, size, fn, *a, **k):
    """one call under the meter; gives (outcome, lines, peak) and judges the bounds"""
    Meter.install()
    mon = sys.monitoring
    tracemalloc.start(1)
    Meter.lines, Meter.budget = 0, (CURVE_LINES if op in CURVE_OPS else LINES[0]) + LINES[1] * size
    t = time.process_time()
    out = problem = None
    try:
        Meter.on = True
        mon.set_events(TOOL, mon.events.LINE | mon.events.JUMP)
        out = ctx.call(op, fn, *a, **k)
    except Exhausted as e:
        problem = str(e)
    finally:
        mon.set_events(TOOL, 0)
        Meter.on = False
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
    cpu = time.process_time() - t
    x = ctx.run.extra
    worst = x.setdefault('_worst', {})
    w = worst.setdefault(op, [0, 0])
    worst[op] = [max(w[0], Meter.lines), max(w[1], peak)]
    x['worst_lines_and_peak_bytes'] = ['%s %d %d' % (o, a, b) for o, (a, b) in worst.items()]
    return out, problem, Meter.lines, peak, cpu


def bounded(ctx, op, size, fn, *a, known=None, **k):
    out, problem, lines, peak, cpu = measured(ctx, op, size, fn, *a, **k)
    bad = problem or (peak > BYTES[0] + BYTES[1] * size and 'took %d bytes of memory' % peak) or (cpu > 20 and 'took %.0f s' % cpu)
    if bad and known:
        ctx.check('bounded-observed', True)
        ctx.known(known, '%s: %s for %d bytes of input' % (op, bad, size))
        return None
    ctx.check('bounded-work', not problem, op, problem, 'for %d bytes of input' % size)
    ctx.check('bounded-memory', peak <= BYTES[0] + BYTES[1] * size, op, 'took %d bytes of memory' % peak, 'for %d bytes of input' % size)
    ctx.check('bounded-time', cpu <= 20, op, 'took %.1f s' % cpu, 'for %d bytes of input' % size)
    ctx.seen(op, size.bit_length(), lines.bit_length(), peak.bit_length(), out.ok)
    return out


DECLARED = [0xfd, 0xffff, 0x10000, 1 << 20, 1 << 24, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 62), (1 << 63) - 1]


def hostile(rng):
    """bytes whose declared sizes have nothing to do with what follows"""
    k = rng.randrange(4)
    body = gen.bytestr(rng, rng.choice([0, 1, 7, 31, 32, 33, 64, 100, 1000, 5000]))
    if k == 0:
        return body
    n = rng.choice(DECLARED) if rng.random() < .8 else gen.uint(rng, 63)
    if k == 1 and n < 1 << 16:
        return b'\xfd' + n.to_bytes(2, 'little') + body
    if n < 1 << 32 and k == 2:
        return b'\xfe' + n.to_bytes(4, 'little') + body
    return b'\xff' + n.to_bytes(8, 'little') + body


READS = ['ReadByte', 'ReadVarInt', 'ReadVarBytes', 'ReadVarString', 'ReadString', 'ReadUInt256', 'ReadUInt160', 'ReadFixed8', 'ReadUInt64', 'ReadBool', 'ReadDouble', 'ReadHashes', 'Read2000256List']


def streams(ctx):
    rng = ctx.rng
    for _ in range(4):
        data = hostile(rng)
        for name in rng.sample(READS, 4):
            r = BinaryReader(io.BytesIO(data))
            # known finding: one empty text per declared hash that is not there
            bounded(ctx, name, len(data), getattr(r, name), known='KF3' if name == 'ReadHashes' and missing_hashes(data) else None)
        n = rng.choice(DECLARED)
        for name in ('ReadBytes', 'SafeReadBytes', 'ReadFixedString'):
            bounded(ctx, name, len(data), getattr(BinaryReader(io.BytesIO(data)), name), n)
        for path in ('neocore.UInt256.UInt256', 'neocore.UInt160.UInt160', 'vlib.ser.Item', 'vlib.ser.Small', 'vlib.ser2.Box'):
            bounded(ctx, 'ReadSerializableArray', len(data), BinaryReader(io.BytesIO(data)).ReadSerializableArray, path)
        bounded(ctx, 'Deserialize', len(data), UInt256().Deserialize, BinaryReader(io.BytesIO(data)))
        bounded(ctx, 'Deserialize_Secp256r1', len(data), ECDSA.Deserialize_Secp256r1, BinaryReader(io.BytesIO(data)))


def missing_hashes(data):
    if not data:
        return False
    w = {0xfd: 2, 0xfe: 4, 0xff: 8}.get(data[0], 0)
    n = int.from_bytes(data[1:1 + w], 'little') if w else data[0]
    return n * 32 > len(data) - 1 - w


def hashes(ctx):
    """hash lists: work follows the hashes that are there"""
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 252, 253, 1000])
    data = oracle.varint(n) + rng.randbytes(32 * n)
    out = bounded(ctx, 'ReadHashes', len(data), BinaryReader(io.BytesIO(data)).ReadHashes)
    ctx.check('right-answer', out.ok and len(out.value) == n)
    n = rng.choice([1 << 24, 1 << 32, 1 << 48])
    data = b'\xff' + n.to_bytes(8, 'little') + rng.randbytes(rng.randrange(100))
    bounded(ctx, 'ReadHashes', len(data), BinaryReader(io.BytesIO(data)).ReadHashes, known='KF3')


ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def long_text(rng):
    n = rng.choice([0, 1, 33, 34, 35, 52, 58, 59, 64, 66, 100, 1000, 4000, 20000])
    k = rng.randrange(9)
    if k >= 6:
        # a long run that fits some grammar up to its last characters, of the length its parser looks for or any other
        run = rng.choice(['a', '0', '1', '9', 'A', 'f', 'F', ' ', '\t', '\n', '.', '-', '+', 'e', '_', ',', '0x', 'ab', '1_', '1,', '0.', '1e', ' 1', '1 ', 'aA', 'A1', '\\', '(', '"', 'z', 'K', '6P'])
        m = rng.choice([20, 34, 40, 42, 52, 58, 64, 66, 68, 130, 1000])
        end = rng.choice(['g', '!', 'x', ' x', '\n', '\0', '0', 'O', 'l', 'é', '.', 'ge', ''])
        head = rng.choice(['', '', '0x', 'A', '6P', '-', '02', ' '])
        body = (run * m)[:max(1, m - len(end) - (len(head) if rng.random() < .7 else 0))]
        return head + body + end
    if k == 0:
        return ''.join(rng.choice(ALPHA) for _ in range(min(n, 1000))) * max(1, n // 1000)
    if k == 1:
        return 'A' * n
    if k == 2:
        return '1' * n
    if k == 3:
        return '0x' + 'f' * n
    if k == 4:
        return ('ab' * n)[:n]
    return ('\u00e9\U0001f600' * n)[:n]


def texts(ctx):
    rng = ctx.rng
    for _ in range(3):
        t = long_text(rng)
        b = t.encode('utf-8', 'replace')
        n = len(b)
        for name, fn in (('isValidPublicAddress', isValidPublicAddress), ('address_to_scripthash', cli.address_to_scripthash), ('scripthash_to_address', quiet_cli),
                         ('PrivateKeyFromWIF', KeyPair.PrivateKeyFromWIF), ('UInt160.ParseString', UInt160.ParseString), ('UInt256.ParseString', UInt256.ParseString),
                         ('decode_secp256r1', ECDSA.decode_secp256r1), ('Fixed8.TryParse', Fixed8.TryParse), ('KeyPair', lambda t: KeyPair(t.encode('utf-8', 'replace')))):
            bounded(ctx, name, n, fn, t)
        with kdf.standin():
            bounded(ctx, 'PrivateKeyFromNEP2', n, KeyPair.PrivateKeyFromNEP2, t, 'passphrase')
            bounded(ctx, 'PrivateKeyFromNEP2', n, KeyPair.PrivateKeyFromNEP2, '6PYVPVe1fQznphjbUxXP9KZJqPMVnVwCx5s5pr5axRJ8uHkMtZg97eT5kL', t)
        bounded(ctx, 'FromBytes', n, ECDSA.FromBytes_Secp256r1, b)


def quiet_cli(t):
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        return cli.scripthash_to_address(t)
    finally:
        sys.stdout = out


NUMBERS = ['1e', '1E+', '-1e', '1e-', '.1e', '0e', '0.0e-']


def numbers(ctx):
    """texts whose exponent says more than their length"""
    rng = ctx.rng
    for _ in range(6):
        t = rng.choice(NUMBERS) + str(rng.choice([9, 308, 309, 400, 5000, 99999, 10 ** 6, 10 ** 9, 999999999999, 10 ** 18 - 1, 10 ** 19, 10 ** 30]))
        out = bounded(ctx, 'TryParse', len(t), Fixed8.TryParse, t)
        t = rng.choice(['9', '0', '0.', '1.', '-', '']) + rng.choice(['9', '0']) * rng.choice([300, 5000, 20000])
        bounded(ctx, 'TryParse', len(t), Fixed8.TryParse, t)
        n = gen.bytestr(rng, rng.choice([0, 1, 1000, 50000]))
        bounded(ctx, 'FromBytes', len(n), BigInteger.FromBytes, n, rng.random() < .5)
        ctx.seen(out.ok)


def crypto(ctx):
    rng = ctx.rng
    k = keys.key(rng)
    m = b'message'.hex()
    sig = Crypto.Sign(m, k.hex())
    pub = oracle.compress(oracle.pub_of(k))
    big = gen.bytestr(rng, rng.choice([0, 1, 63, 65, 1000, 50000]))
    for a in ((m, big, pub), (m, bytes(sig), big), (m, bytes(sig) + big, pub + big), (big.hex(), bytes(sig), pub), (m, b'\xff' * 64, pub), (m, bytes(64), pub), (m, bytes(sig), b'\2' + b'\xff' * 32),
              (m, bytes(sig), b'\3' + bytes(32)), (m, bytes(sig), b'\xff' * 64)):
        bounded(ctx, 'VerifySignature', sum(map(len, a)), Crypto.VerifySignature, *a)
    for c in (ECDSA.secp256r1(), ECDSA.secp256k1()):
        s = gen.bigint(rng, rng.choice([256, 257, 512, 1000]))
        bounded(ctx, 'multiply', s.bit_length() * 100, lambda: c.G * s)
    for t in ('02' + 'ff' * 32, '03' + '00' * 32, '04' + 'ff' * 64, '04' + big.hex(), big.hex(), '02' + big.hex(), '00', ''):
        bounded(ctx, 'decode', len(t), ECDSA.decode_secp256r1, t)
    n = rng.choice([1, 2, 3, 100, 1000])
    hs = [UInt256(data=i.to_bytes(32, 'little')) for i in range(n)]
    bounded(ctx, 'ComputeRoot', 32 * n, MerkleTree.ComputeRoot, hs)
    tree = MerkleTree(hs)
    bounded(ctx, 'Trim', 32 * n, tree.Trim, bytearray(rng.choice([0, 1, 1]) for _ in range(rng.choice([0, 1, n]))))


LARGE = 2000000
LARGE_CPU = (4, 1e-6)           # seconds of CPU: constant part, per input byte (honest: at most 0.12e-6 per byte)


def timed(ctx, op, size, fn, *a):
    """one call on a large input, stopped and judged by the CPU time it takes; nothing else is measured"""
    limit = LARGE_CPU[0] + LARGE_CPU[1] * size
    over = []

    def stop(sig, frame):
        over.append(1)
        raise Exhausted('more than %.0f s' % limit)
    old = signal.signal(signal.SIGPROF, stop)
    t = time.process_time()
    out = None
    try:
        signal.setitimer(signal.ITIMER_PROF, limit)
        out = ctx.call(op, fn, *a)
    except Exhausted:
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    cpu = time.process_time() - t
    w = ctx.run.extra.setdefault('_large', {})
    w[op] = max(w.get(op, 0), round(cpu * 1e6 / size, 3))
    ctx.run.extra['worst_microseconds_per_byte_large'] = ['%s %.3f' % x for x in sorted(w.items())]
    ctx.check('bounded-time', not over and cpu <= limit, op, 'took %.1f s' % cpu, 'for %d bytes of input' % size)
    ctx.seen('large', op, out.ok)
    return out.value if out.ok else None


def large(ctx):
    """inputs of megabytes: work that grows with the square of the size shows"""
    rng = ctx.rng
    n = LARGE + rng.randrange(1000)
    k = ctx.index % 10
    data = rng.randbytes(n - 1) + bytes([rng.choice([0, 1, 0x7f, 0x80, 0xff])])
    s = io.BytesIO
    count = n // 32
    if k == 0:
        for signed in (False, True):
            v = timed(ctx, 'BigInteger.FromBytes', n, BigInteger.FromBytes, data, signed)
            ctx.check('right-answer', v == int.from_bytes(data, 'little', signed=signed))
        b = timed(ctx, 'ToByteArray', n, v.ToByteArray)
        ctx.check('right-answer', int.from_bytes(b, 'little', signed=True) == v)
    elif k == 1:
        data, n = data * 3, n * 3
        for name, fn in (('Hash160', Crypto.Hash160), ('Hash160Bytes', Crypto.Hash160Bytes), ('Hash256', Crypto.Hash256)):
            timed(ctx, name, n, fn, data)
        timed(ctx, 'ToScriptHash', n, Crypto.ToScriptHash, data, False)
        timed(ctx, 'ToScriptHash', 2 * n, Crypto.ToScriptHash, data.hex())
    elif k == 2:
        key = keys.key(rng)
        pub = oracle.compress(oracle.pub_of(key))
        sig = timed(ctx, 'Sign', 2 * n, Crypto.Sign, data.hex(), key.hex())
        ctx.check('right-answer', timed(ctx, 'VerifySignature', 2 * n, Crypto.VerifySignature, data.hex(), sig, pub) is True)
        ctx.check('right-answer', timed(ctx, 'VerifySignature', n, Crypto.VerifySignature, data, bytes(sig) + data, pub, False) is False)
        ctx.check('right-answer', timed(ctx, 'VerifySignature', n, Crypto.VerifySignature, '00', sig, data) is False)
    elif k == 3:
        enc = oracle.varint(n) + data
        ctx.check('right-answer', timed(ctx, 'ReadVarBytes', n, BinaryReader(s(enc)).ReadVarBytes) == data)
        ctx.check('right-answer', timed(ctx, 'ReadVarString', n, BinaryReader(s(enc)).ReadVarString) == data)
        ctx.check('right-answer', timed(ctx, 'ReadBytes', n, BinaryReader(s(data)).ReadBytes, n) == data)
        ctx.check('right-answer', timed(ctx, 'SafeReadBytes', n, BinaryReader(s(data)).SafeReadBytes, n) == data)
        ctx.check('right-answer', timed(ctx, 'ReadFixedString', n, BinaryReader(s(data)).ReadFixedString, n) == data.rstrip(b'\0'))
        ctx.check('right-answer', timed(ctx, 'ReadFixedString', n, BinaryReader(s(bytes(n))).ReadFixedString, n) == b'')
        timed(ctx, 'ReadVarString', n, BinaryReader(s(enc[:-1])).ReadVarString)
    elif k == 4:
        enc = oracle.varint(count) + data[:32 * count]
        got = timed(ctx, 'ReadHashes', n, BinaryReader(s(enc)).ReadHashes)
        ctx.check('right-answer', got is not None and len(got) == count)
    elif k == 5:
        count = n // 64              # elements cost a little more
        enc = oracle.varint(count) + data[:32 * count]
        got = timed(ctx, 'ReadSerializableArray', n, BinaryReader(s(enc)).ReadSerializableArray, 'neocore.UInt256.UInt256')
        ctx.check('right-answer', got is not None and len(got) == count)
        got = timed(ctx, 'ReadSerializableArray', n, BinaryReader(s(b'\xff' + enc[5:10] + bytes(3) + enc[10:])).ReadSerializableArray, 'neocore.UInt160.UInt160')
    elif k == 6:
        hs = [UInt256(data=data[i:i + 32]) for i in range(0, 32 * 32000, 32)]
        hs = [UInt256(data=i.to_bytes(4, 'little') + h.Data[:28]) for i in range(3) for h in hs]
        tree = timed(ctx, 'MerkleTree', 64 * len(hs), MerkleTree, hs)
        timed(ctx, 'ComputeRoot', 64 * len(hs), MerkleTree.ComputeRoot, hs)
        timed(ctx, 'ToHashArray', 32 * len(hs), tree.ToHashArray)
        timed(ctx, 'Trim', 32 * len(hs), tree.Trim, bytearray(rng.choice([0, 0, 1]) for _ in hs))
    elif k == 7:
        for name, fn in (('decode_secp256r1', ECDSA.decode_secp256r1), ('UInt160.ParseString', UInt160.ParseString), ('UInt256.ParseString', UInt256.ParseString), ('isValidPublicAddress', isValidPublicAddress),
                         ('PrivateKeyFromWIF', KeyPair.PrivateKeyFromWIF)):
            for t in (data.hex(), 'A' * n, '0x' + 'f' * n, '02' * (n // 2), ' ' * n, '1' * n):
                timed(ctx, name, n, fn, t)
    elif k == 8:
        for t in (data, bytes(n), b'A' * n):
            timed(ctx, 'FromBytes_Secp256r1', n, ECDSA.FromBytes_Secp256r1, t)
            timed(ctx, 'KeyPair', n, KeyPair, t)
            timed(ctx, 'UInt256', n, UInt256, t)
        with kdf.standin():
            timed(ctx, 'PrivateKeyFromNEP2', n, KeyPair.PrivateKeyFromNEP2, 'A' * n, 'passphrase')
            timed(ctx, 'PrivateKeyFromNEP2', n, KeyPair.PrivateKeyFromNEP2, '6PYVPVe1fQznphjbUxXP9KZJqPMVnVwCx5s5pr5axRJ8uHkMtZg97eT5kL', 'e\u0301' * (n // 3))
    else:
        # nothing but soft reads of an empty stream
        for name in READS:
            if name != 'ReadHashes':
                timed(ctx, name, n, getattr(BinaryReader(s(b'\xff' + bytes(8) + data)), name))


FAMILIES = [Family('large', 10, 100, large), Family('streams', 240, 6000, streams), Family('hashes', 16, 160, hashes), Family('texts', 480, 6000, texts), Family('numbers', 400, 8000, numbers), Family("crypto", 24, 800, crypto)]

"""
A sanitizer for the process: the workloads of the other properties run again, in host programs with settings of their
own, and the settings are looked at before and after every call. What those properties judge is ignored here.
"""
import decimal
import gc
import importlib
import io
import locale
import logging
import os
import random
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings
from vlib import kdf
kdf.install()
from vlib import keys, nep2, oracle, wire  # noqa: E402
from vlib.core import Family, Ctx  # noqa: E402
from props import G01  # noqa: E402
from neocore.BigInteger import BigInteger
from neocore.Fixed8 import Fixed8
from neocore.KeyPair import KeyPair
from neocore.UInt256 import UInt256
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.ECCurve import ECDSA, FiniteField
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.bin import cli

PROP = 'G02'
Foreign = G01.Foreign
# functions other code relies on too; the curve of the bitcoin library is switched by design
MODULES = ['builtins', 'os', 'sys', 'random', 'struct', 'binascii', 'hashlib', 'math', 'decimal', 'json', 'time', 'io', 'unicodedata', 'base58', 'bitcoin', 'bitcoin.main', 'ecdsa', 'ecdsa.keys', 'Crypto.Cipher.AES', 'Crypto.Random', 'argparse', 'logging', 'scrypt']
CURVE = {'P', 'N', 'A', 'B', 'Gx', 'Gy', 'G', '_'}
MUTABLE = {'argv', 'path', 'modules', 'path_importer_cache', 'meta_path', 'path_hooks', 'warnoptions', 'last_type', 'last_value', 'last_traceback', 'last_exc', 'ps1', 'ps2', 'stdin', 'stdout', 'stderr', '__stdout__', '__stderr__'}


def functions():
    out = {}
    for name in MODULES:
        m = sys.modules.get(name)
        if m is None:
            continue
        for k, v in vars(m).items():
            if (callable(v) or isinstance(v, (int, str, bytes, float))) and k not in CURVE and k not in MUTABLE and not k.startswith('__'):
                out[name, k] = id(v) if callable(v) else v
    return out


def context():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(t.__name__ for t, on in c.traps.items() if on)))


def fds():
    return tuple(sorted(os.listdir('/proc/self/fd'), key=int))[:-1]       # without the one of the listing itself


CHEAP = {
    'decimal context': context,
    'environment': lambda: os.environ._data.copy(),
    'working directory': os.getcwd,
    'recursion limit': sys.getrecursionlimit,
    'limit of integer digits': sys.get_int_max_str_digits,
    'switch interval': sys.getswitchinterval,
    'trace and profile functions': lambda: (sys.gettrace(), sys.getprofile(), threading._trace_hook if hasattr(threading, '_trace_hook') else None),
    'exception hooks': lambda: (sys.excepthook, sys.unraisablehook, threading.excepthook, sys.displayhook),
    'standard streams': lambda: (sys.stdin, sys.stdout, sys.stderr),
    'arguments': lambda: list(sys.argv),
    'module path': lambda: list(sys.path),
    'default socket timeout': socket.getdefaulttimeout,
    'garbage collector': lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
    'warning filters': lambda: (list(warnings.filters), warnings.showwarning),
    'logging': lambda: (logging.root.manager.disable, logging.root.level, list(logging.root.handlers), list(logging.root.filters), logging.raiseExceptions, logging.getLoggerClass()),
    'threads': lambda: sorted(t.ident for t in threading.enumerate()),
    'alarm': lambda: [(signal.getitimer(t)[0] > 0, signal.getitimer(t)[1]) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
    'byte code flag': lambda: sys.dont_write_bytecode,
}


def umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def loggers():
    out = {}
    for n, g in list(logging.root.manager.loggerDict.items()):
        if isinstance(g, logging.Logger):
            out[n] = (g.level, g.disabled, g.propagate, tuple(map(id, g.handlers)), tuple(map(id, g.filters)))
    return out


COSTLY = {
    'open files': fds,
    'umask': umask,
    'locale': lambda: [locale.setlocale(c) for c in (locale.LC_CTYPE, locale.LC_NUMERIC, locale.LC_COLLATE, locale.LC_TIME, locale.LC_MONETARY)],
    'signal handlers': lambda: [signal.getsignal(s) for s in sorted(signal.valid_signals())],
    'blocked signals': lambda: sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
    'time zone': lambda: (time.tzname, time.timezone),
    'priority': lambda: os.getpriority(os.PRIO_PROCESS, 0),
    'loggers': loggers,
    'child processes': lambda: open('/proc/self/task/%d/children' % os.getpid()).read().split() if os.path.exists('/proc/self/task/%d/children' % os.getpid()) else None,
}


def differs(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ks = sorted((k for k in set(a) | set(b) if a.get(k) != b.get(k)), key=repr)
        return ', '.join('%s: was %s, is %s' % (k, a.get(k, 'nothing'), b.get(k, 'nothing')) for k in ks)[:600]
    return 'was %s, is %s' % (repr(a)[:300], repr(b)[:300])


def drawn(old, new):
    """the state of the generator is one that drawing from it leads to"""
    if old == new:
        return True
    if old[2] != new[2] and new[2] is not None:
        return False
    a, b = random.Random(), random.Random()
    a.setstate(old)
    b.setstate(new)
    want = [b.getrandbits(32) for _ in range(4)]
    got = [a.getrandbits(32) for _ in range(4)]
    for _ in range(20000):
        if got == want:
            return True
        got = got[1:] + [a.getrandbits(32)]
    return False


class HostCtx(G01.SanCtx):
    """looks at the process before and after every call"""
    each = 1            # the costly looks: at every n-th call
    watched = 0

    def call(self, op, fn, *args, **kwargs):
        if self.off:
            return Ctx.call(self, op, fn, *args, **kwargs)
        self.n += 1
        if self.n > 25 and self.rng.random() < .95:
            return Ctx.call(self, op, fn, *args, **kwargs)
        self.watched += 1
        probes = dict(CHEAP, **COSTLY) if self.watched % self.each == 0 else CHEAP
        before = {k: f() for k, f in probes.items()}
        gen = random.getstate()
        out = Ctx.call(self, op, fn, *args, **kwargs)
        how = '%s %s and left' % (op, 'failed' if out.exc else 'returned')
        o = self.outer
        m = o.run.monitors
        m['process-unchanged'] = m.get('process-unchanged', 0) + len(probes)
        for k, f in probes.items():
            now = f()
            if now != before[k]:
                if k == 'loggers':
                    now = {n: v for n, v in now.items() if n in before[k]}
                o.check('process-unchanged', now == before[k], how, 'another', k, differs(before[k], now))
        o.check('generator-only-drawn-from', drawn(gen, random.getstate()), how, 'the random module in a state that drawing does not lead to')
        return out


class Host:
    """settings of a host program, put back afterwards"""

    def __init__(self, ctx):
        self.rng, self.ctx = ctx.rng, ctx

    def __enter__(self):
        rng = self.rng
        self.saved = (decimal.getcontext().copy(), os.getcwd(), sys.getrecursionlimit(), sys.get_int_max_str_digits(), sys.getswitchinterval(), socket.getdefaulttimeout(), umask(), random.getstate(), logging.root.manager.disable,
                      logging.root.level, list(warnings.filters), gc.get_threshold(), list(sys.argv), signal.getsignal(signal.SIGUSR1), sys.stdout, dict(os.environ), locale.setlocale(locale.LC_ALL), sys.excepthook)
        self.set = []
        kinds = rng.sample(['decimal', 'cwd', 'recursion', 'digits', 'socket', 'umask', 'random', 'logging', 'warnings', 'gc', 'argv', 'signal', 'stdout', 'env', 'locale', 'traps', 'switch', 'hook'], rng.randrange(4, 12)) if rng.random() < .8 else []
        self.dir = tempfile.mkdtemp(prefix='vf-host')
        for k in kinds:
            if k == 'decimal':
                c = decimal.getcontext()
                c.prec = rng.choice([6, 17, 28, 40, 200])
                c.rounding = rng.choice([decimal.ROUND_HALF_EVEN, decimal.ROUND_FLOOR, decimal.ROUND_UP])
            elif k == 'traps':
                decimal.getcontext().traps[rng.choice([decimal.Inexact, decimal.Rounded, decimal.FloatOperation, decimal.InvalidOperation])] = rng.random() < .5
            elif k == 'cwd':
                os.chdir(self.dir)
            elif k == 'recursion':
                sys.setrecursionlimit(rng.choice([800, 3000, 5000]))
            elif k == 'digits':
                sys.set_int_max_str_digits(rng.choice([0, 5000, 4300, 20000]))
            elif k == 'socket':
                socket.setdefaulttimeout(rng.choice([3, 60]))
            elif k == 'switch':
                sys.setswitchinterval(rng.choice([.001, .01, .05]))
            elif k == 'hook':
                sys.excepthook = print
            elif k == 'umask':
                os.umask(rng.choice([0, 0o22, 0o27, 0o77]))
            elif k == 'random':
                random.seed(rng.getrandbits(30))
            elif k == 'logging':
                logging.root.setLevel(rng.choice([10, 30, 50]))
                logging.disable(rng.choice([0, 10, 50]))
            elif k == 'warnings':
                warnings.simplefilter(rng.choice(['ignore', 'always', 'default']))
            elif k == 'gc':
                gc.set_threshold(rng.choice([500, 900, 5000]), 11, 12)
            elif k == 'argv':
                sys.argv = ['host', '--flag', str(rng.random())]
            elif k == 'signal':
                signal.signal(signal.SIGUSR1, signal.SIG_IGN)
            elif k == 'stdout':
                sys.stdout = io.StringIO()
            elif k == 'env':
                os.environ['NEO_HOST'] = str(rng.random())
                os.environ['LANG'] = rng.choice(['C', 'de_DE.UTF-8', ''])
            elif k == 'locale':
                locale.setlocale(locale.LC_ALL, rng.choice(['C', 'C.UTF-8']))
            self.set.append(k)
        self.ctx.note('host program sets', ' '.join(self.set))
        return self

    def __exit__(self, *exc):
        d, cwd, rec, digits, sw, to, um, gen, dis, lev, flt, thr, argv, sig, out, env, loc, hook = self.saved
        decimal.setcontext(d)
        os.chdir(cwd)
        sys.setrecursionlimit(rec)
        sys.set_int_max_str_digits(digits)
        sys.setswitchinterval(sw)
        socket.setdefaulttimeout(to)
        os.umask(um)
        random.setstate(gen)
        logging.disable(dis)
        logging.root.setLevel(lev)
        warnings.filters[:] = flt
        gc.set_threshold(*thr)
        sys.argv = argv
        signal.signal(signal.SIGUSR1, sig)
        sys.stdout = out
        sys.excepthook = hook
        if dict(os.environ) != env:
            os.environ.clear()
            os.environ.update(env)
        locale.setlocale(locale.LC_ALL, loc)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


def at_end(ctx, before):
    """over the whole case"""
    for k, was in before.items():
        now = (COSTLY.get(k) or functions)()
        if isinstance(was, dict):
            # modules loaded meanwhile bring names of their own
            now = {n: v for n, v in now.items() if n in was}
        if now == was:
            continue
        ctx.check('process-unchanged', now == was, 'the calls of this case left another', k, differs(was, now) if now != was else '')


def at_start():
    return dict({k: f() for k, f in COSTLY.items()}, **{'functions of other modules': functions()})


def watch(ctx, mod, fam):
    inner = HostCtx(ctx)
    inner.each = 5 if ctx.index % 4 == 0 else 20
    ended = 'whole'
    with Host(ctx) as host:
        before = at_start()
        try:
            fam.fn(inner)
        except Foreign:
            ended = 'cut'
        except G01.Violation:
            raise
        except Exception:
            ended = 'cut'
        at_end(ctx, before)
    x = ctx.run.extra
    x['calls_watched'] = x.get('calls_watched', 0) + inner.watched
    for k in host.set:
        x['hosts_with_' + k] = x.get('hosts_with_' + k, 0) + 1
    ctx.seen(mod.PROP, fam.name, ended, min(inner.n, 40), tuple(sorted(host.set))[:2])


def everything(ctx):
    """calls of every kind, good and refused, in one host program"""
    rng = ctx.rng
    s = HostCtx(ctx)
    k = keys.key(rng)
    xy = oracle.pub_of(k)
    comp = oracle.compress(xy)
    msg = rng.randbytes(rng.choice([0, 1, 40]))
    addr, wif = oracle.key_address(k), oracle.wif(k)
    amount = rng.choice(['1.5', '0.00000001', '-3', '92233720368.54775807', '1e5', '9' * 30, '0.' + '1' * 30, 'x', '', 'nan', '1e999999', '-inf', '.5'])
    pw = nep2.passphrase(rng)
    small = FiniteField(rng.choice([13, 17, 41, 73, 97, 101]))
    hashes = [UInt256(data=rng.randbytes(32)) for _ in range(rng.randrange(1, 9))]
    w = BinaryWriter(io.BytesIO())

    left = []

    def command(*argv):
        def go(_):
            old = sys.argv, sys.stdout, sys.stderr
            sys.argv, sys.stdout, sys.stderr = ['np-utils'] + list(argv), io.StringIO(), io.StringIO()
            before = CHEAP['arguments'](), CHEAP['standard streams']()
            try:
                cli.main()
            except SystemExit:
                pass
            finally:
                now = CHEAP['arguments'](), CHEAP['standard streams']()
                sys.argv, sys.stdout, sys.stderr = old
            if now != before:
                left.append(argv)
        return go

    def reader(data, name, *a):
        def go(_):
            return getattr(BinaryReader(io.BytesIO(data)), name)(*a)
        return go
    data = rng.randbytes(rng.randrange(0, 80))
    calls = [
        ('FromDecimal', lambda _: Fixed8.FromDecimal(decimal.Decimal(amount))), ('TryParse', lambda _: Fixed8.TryParse(amount, rng.random() < .5)), ('TryParse', lambda _: Fixed8.TryParse(amount)),
        ('amount str', lambda _: str(Fixed8(rng.getrandbits(62)))), ('ToString', lambda _: Fixed8(rng.getrandbits(70)).ToString()), ('/', lambda _: Fixed8(rng.getrandbits(60)) / Fixed8(rng.choice([0, 7, 10 ** 8]))), ('%', lambda _: Fixed8(rng.getrandbits(60)) % Fixed8(rng.choice([0, 7]))),
        ('*', lambda _: Fixed8(rng.getrandbits(60)) * Fixed8(3)), ('pow', lambda _: pow(Fixed8(5), 2)), ('Ceil', lambda _: Fixed8(rng.getrandbits(50)).Ceil()), ('Floor', lambda _: Fixed8(rng.getrandbits(50)).Floor()),
        ('ToInt', lambda _: Fixed8(rng.getrandbits(50)).ToInt()), ('Serialize', lambda _: Fixed8(rng.getrandbits(rng.choice([60, 70]))).Serialize(w)),
        ('KeyPair', lambda _: KeyPair(k)), ('KeyPair', lambda _: KeyPair(bytes(rng.choice([0, 31, 32, 96])))), ('Export', lambda _: KeyPair(k).Export()), ('GetAddress', lambda _: KeyPair(k).GetAddress()), ('ExportNEP2', lambda _: KeyPair(k).ExportNEP2(pw)), ('ExportNEP2', lambda _: KeyPair(k).ExportNEP2(None)),
        ('PrivateKeyFromWIF', lambda _: KeyPair.PrivateKeyFromWIF(wif)), ('PrivateKeyFromWIF', lambda _: KeyPair.PrivateKeyFromWIF(wif[:-1])), ('PrivateKeyFromWIF', lambda _: KeyPair.PrivateKeyFromWIF('L' * 52)),
        ('PrivateKeyFromNEP2', lambda _: KeyPair.PrivateKeyFromNEP2(oracle.nep2_encrypt(k, pw, kdf.cheap), pw)), ('PrivateKeyFromNEP2', lambda _: KeyPair.PrivateKeyFromNEP2(oracle.nep2_encrypt(k, pw, kdf.cheap), pw + 'x')), ('PrivateKeyFromNEP2', lambda _: KeyPair.PrivateKeyFromNEP2('6P' * 29, pw)),
        ('Sign', lambda _: Crypto.Sign(msg.hex(), k.hex())), ('Sign', lambda _: Crypto.Sign('zz', k.hex())), ('Sign', lambda _: Crypto.Sign(msg.hex(), '00' * 32)), ('VerifySignature', lambda _: Crypto.VerifySignature(msg.hex(), rng.randbytes(64), comp)),
        ('VerifySignature', lambda _: Crypto.VerifySignature(msg.hex(), rng.randbytes(9), rng.randbytes(33))), ('ToScriptHash', lambda _: Crypto.ToScriptHash(rng.choice(['00', 'zz', 5]))), ('ToAddress', lambda _: Crypto.ToAddress(rng.choice([hashes[0], None]))),
        ('Default', lambda _: Crypto.Default().Hash160(msg)), ('decode', lambda _: ECDSA.decode_secp256r1(comp.hex())), ('decode', lambda _: ECDSA.decode_secp256r1(b'\2' + rng.randbytes(32), unhex=False)), ('point *', lambda _: ECDSA.secp256r1().G * rng.getrandbits(40)),
        ('sqrt', lambda _: small.value(rng.randrange(100)).sqrt(rng.randrange(2))), ('field /', lambda _: small.value(3) / small.value(rng.randrange(5))), ('secp256k1', lambda _: ECDSA.secp256k1()),
        ('random_key', lambda _: Helper.random_key()), ('create_wallet', lambda _: cli.create_wallet()), ('address_to_scripthash', lambda _: cli.address_to_scripthash(rng.choice([addr, addr[:-1], '']))), ('scripthash_to_address', lambda _: cli.scripthash_to_address(rng.choice(['00' * 20, 'zz', '00']))),
        ('np-utils', command('--address-to-scripthash', rng.choice([addr, 'x']))), ('np-utils', command('--create-wallet')), ('np-utils', command()), ('np-utils', command('--version')), ('np-utils', command('--nothing')), ('np-utils', command('--scripthash-to-address', rng.choice(['00' * 20, 'q']))),
        ('MerkleTree', lambda _: MerkleTree.ComputeRoot(hashes)), ('MerkleTree', lambda _: MerkleTree.ComputeRoot([])), ('Trim', lambda _: MerkleTree(hashes).Trim(bytearray([1]))), ('BigInteger', lambda _: BigInteger.FromBytes(data)),
        ('BigInteger str', lambda _: str(BigInteger(10 ** rng.choice([3, 699, 4400])))), ('BigInteger', lambda _: BigInteger(rng.choice(['1' * 20, 'x', '9' * 4400]))), ('BigInteger /', lambda _: BigInteger(7) / rng.choice([0, 2])),
        ('ReadSerializableArray', reader(b'\5' + data, 'ReadSerializableArray', 'neocore.UInt256.UInt256')), ('ReadSerializableArray', reader(b'\5' + data, 'ReadSerializableArray', 'neocore.Nothing.Nothing')), ('ReadVarString', reader(data, 'ReadVarString')),
        ('ReadUInt256', reader(data, 'ReadUInt256')), ('ReadDouble', reader(data, 'ReadDouble')), ('ReadHashes', reader(b'\2' + data, 'ReadHashes')), ('WriteVarString', lambda _: w.WriteVarString(rng.choice(['a', '\ud800', 5, None]))),
        ('WriteFixedString', lambda _: w.WriteFixedString('ab', rng.choice([1, 5]))), ('WriteInt8', lambda _: w.WriteInt8(rng.choice([1, 300]))), ('base256_encode', lambda _: Helper.base256_encode(rng.getrandbits(90))), ('random_to_priv', lambda _: Helper.random_to_priv(rng.randbytes(32))),
    ]
    with Host(ctx) as host:
        chosen = rng.sample(calls, rng.randrange(6, 16))
        before = at_start()
        for op, fn in chosen:
            s.call(op, fn, op)
            ctx.check('process-unchanged', not left, 'the command left other arguments or streams', left)
        at_end(ctx, before)
    x = ctx.run.extra
    x['calls_watched'] = x.get('calls_watched', 0) + s.watched
    for k in host.set:
        x['hosts_with_' + k] = x.get('hosts_with_' + k, 0) + 1
    ctx.seen('everything', tuple(sorted({op for op, fn in chosen}))[:4], len(host.set))


SHARES = {n: (q * .04, t * .4, skip) for n, (q, t, skip) in G01.SHARES.items()}
SHARES['F02'] = (.03, .1, ())
SHARES['F03'] = (.04, .1, ())


def make(name, fam, q, t):
    mod = importlib.import_module('props.' + name)

    def fn(ctx):
        watch(ctx, mod, fam)
    return Family('%s-%s' % (name, fam.name), max(2, int(fam.quick * q)), max(8, int(fam.thorough * t)), fn)


FAMILIES = [Family('everything', 1800, 60000, everything)] + [make(n, f, q, t) for n, (q, t, skip) in SHARES.items() for f in importlib.import_module('props.' + n).FAMILIES if f.name not in skip]

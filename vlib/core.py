"""
Monitored execution of the real code: cases, recorded histories, monitors, evidence.

A property module (props/<ID>.py) holds families of cases. A case is one short history of calls
on the real code, made by a seeded workload generator. Every call goes through Ctx.call, which
records the event (operation, arguments, result or exception) in the case's history. Monitors
(Ctx.check) judge events against an independent reference; a monitor that fails raises Violation,
and the recorded history becomes the witness.
"""
import ast
import hashlib
import json
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NWORKERS = 8
CASE_CPU_S = 100           # a single case takes milliseconds to a few seconds


class Violation(Exception):
    def __init__(self, monitor, message):
        super().__init__('%s: %s' % (monitor, message))
        self.monitor = monitor
        self.message = message


class CpuLimit(BaseException):
    pass


class Hang(BaseException):
    """nothing has run for a while: the case waits for something that does not come"""


TICK_S = 10
HANG_TICKS = 3


def _activity(pid, depth=0):
    """nanoseconds that the threads of the process and of its children have run or waited for a processor"""
    total = 0
    base = '/proc/%d/task' % pid
    try:
        tasks = os.listdir(base)
    except OSError:
        return 0
    for t in tasks:
        try:
            a, b, _ = open('%s/%s/schedstat' % (base, t)).read().split()
            total += int(a) + int(b)
            if depth < 4:
                total += sum(_activity(int(c), depth + 1) for c in open('%s/%s/children' % (base, t)).read().split())
        except (OSError, ValueError):
            pass
    return total


class Watchdog:
    """Raises Hang in the main thread when a case sleeps. A machine that is only slow does not look like
    that: threads that want a processor count as active."""

    def __init__(self):
        self.last = self.quiet = 0
        signal.signal(signal.SIGALRM, self.tick)

    def start(self):
        self.last, self.quiet = None, 0
        signal.setitimer(signal.ITIMER_REAL, TICK_S, TICK_S)

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)

    def tick(self, sig, frame):
        now = _activity(os.getpid())
        if self.last is not None and abs(now - self.last) < .02 * TICK_S * 1e9:
            self.quiet += 1
        else:
            self.quiet = 0
        self.last = now
        if self.quiet >= HANG_TICKS:
            self.quiet = 0
            raise Hang()


class Outcome:
    """What a recorded call did: returned a value or raised an exception."""
    __slots__ = ('op', 'value', 'exc')

    def __init__(self, op, value=None, exc=None):
        self.op, self.value, self.exc = op, value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return render(self.value) if self.exc is None else 'raised %s(%s)' % (type(self.exc).__name__, str(self.exc)[:200])


def render(v, limit=300):
    """Readable, bounded and type-preserving text for a value."""
    if isinstance(v, (bytes, bytearray)):
        h = bytes(v[:limit // 2]).hex()
        return '%s[%d]:%s%s' % (type(v).__name__, len(v), h, '...' if len(v) > limit // 2 else '')
    if isinstance(v, str) and len(v) > limit:
        return '%r...(%d)' % (v[:limit], len(v))
    if isinstance(v, (list, tuple)):
        s = ', '.join(render(x, 80) for x in v[:12])
        return '%s(%d)[%s%s]' % (type(v).__name__, len(v), s, ', ...' if len(v) > 12 else '')
    if isinstance(v, int) and not isinstance(v, bool) and v.bit_length() > 1200:
        return '%s bits=%d %s...' % (type(v).__name__, v.bit_length(), hex(v)[:60])
    try:
        if type(v).__module__.startswith('neocore'):
            d = getattr(v, 'Data', None)
            if isinstance(d, (bytes, bytearray)):
                return '%s(data=%s)' % (type(v).__name__, bytes(d).hex())
            if hasattr(v, 'x') and hasattr(v, 'y'):
                return 'ECPoint(%x, %x)' % (v.x.value, v.y.value)
            if hasattr(v, 'value'):
                return '%s(value=%s)' % (type(v).__name__, render(v.value))
        s = repr(v)
    except BaseException as e:
        s = '<%s, repr failed: %s>' % (type(v).__name__, type(e).__name__)
    return s if len(s) <= limit else s[:limit] + '...(%d)' % len(s)


class Ctx:
    def __init__(self, run, family, index, rng):
        self.run, self.family, self.index, self.rng = run, family, index, rng
        self.history = []
        self.features = set()
        self.seed = run.seed
        self.tier = run.tier

    # --- events
    def call(self, op, fn, *args, **kwargs):
        """Make one call on the real code and record it."""
        note = [render(a) for a in args]
        note += ['%s=%s' % (k, render(v)) for k, v in kwargs.items()]
        if len(self.history) < 4000:
            self.history.append([op, note, 'no return recorded'])
            slot = self.history[-1]
        else:
            slot = [op, note, '']
        try:
            out = Outcome(op, fn(*args, **kwargs))
        except Exception as e:
            out = Outcome(op, exc=e)
        slot[2] = repr(out)
        self.run.count_event(op, out)
        return out

    def note(self, op, detail):
        """Record a step of the workload that is not a call on the code under test."""
        if len(self.history) < 4000:
            self.history.append([op, [], detail])

    # --- monitors
    def check(self, monitor, cond, *detail):
        self.run.monitors[monitor] = self.run.monitors.get(monitor, 0) + 1
        if not cond:
            raise Violation(monitor, ' '.join(d if isinstance(d, str) else render(d) for d in detail))

    def equal(self, monitor, got, want, *detail):
        self.run.monitors[monitor] = self.run.monitors.get(monitor, 0) + 1
        try:
            same = got == want
        except Exception as e:
            raise Violation(monitor, 'comparison raised %r: got %s, want %s; %s' % (e, render(got), render(want), ' '.join(map(str, detail))))
        if not (isinstance(same, bool) and same):
            raise Violation(monitor, 'got %s, expected %s; %s' % (render(got), render(want), ' '.join(d if isinstance(d, str) else render(d) for d in detail)))

    def returned(self, monitor, out, *detail):
        """The call must not raise; gives its value."""
        self.run.monitors[monitor] = self.run.monitors.get(monitor, 0) + 1
        if out.exc is not None:
            raise Violation(monitor, '%s %r where a result is required; %s' % (out.op, out, ' '.join(d if isinstance(d, str) else render(d) for d in detail)))
        return out.value

    def refused(self, monitor, out, *detail, types=Exception):
        """The call must raise."""
        self.run.monitors[monitor] = self.run.monitors.get(monitor, 0) + 1
        if out.exc is None:
            raise Violation(monitor, '%s returned %s where a refusal is required; %s' % (out.op, render(out.value), ' '.join(d if isinstance(d, str) else render(d) for d in detail)))
        if not isinstance(out.exc, types):
            raise Violation(monitor, '%s %r, another kind of error is required; %s' % (out.op, out, ' '.join(d if isinstance(d, str) else render(d) for d in detail)))

    def seen(self, *key):
        """A feature of this case; cases are distinct and non-trivial by the set of these."""
        self.features.add(key)

    def takes(self, value):
        """the workload is about to change a result it got: that is its own doing"""

    def known(self, kid, what):
        """A violation that matches the mechanism of a listed known finding."""
        if kid in self.run.known:
            self.run.known_hits[kid] = self.run.known_hits.get(kid, 0) + 1
            return
        raise Violation('known-finding-' + kid, what)

    def sample(self, text):
        if len(self.run.samples) < 6:
            self.run.samples.append(text)


def case_seed(seed, prop, family, index):
    return int.from_bytes(hashlib.sha256(('%s|%s|%s|%s' % (seed, prop, family, index)).encode()).digest(), 'big')


class Family:
    def __init__(self, name, quick, thorough, fn, single=False):
        """quick/thorough: number of cases. single: run all cases of the family in worker 0."""
        self.name, self.quick, self.thorough, self.fn, self.single = name, quick, thorough, fn, single

    def count(self, tier, prop):
        if tier == 'thorough':
            return self.thorough
        return max(self.quick, min(self.thorough, self.quick * MORE.get(prop, 1)))


# properties whose quick tier is cheap enough for this many times the cases
MORE = dict(I03=2, I04=4, U01=4, U02=5, U03=4, F01=4, F02=4, F03=4, B01=4, B02=5, H01=4, A01=4, A02=4, K01=2, K02=2, E01=2, E02=3, E03=3, E04=2, M01=2, M02=4, X01=4)


UNUSABLE = (TypeError, AttributeError, ValueError, LookupError, AssertionError, ArithmeticError, struct.error)


class Run:
    """The part of a check that runs in one worker process."""

    def __init__(self, mod, tier, seed, shard, nshards, known):
        self.mod, self.tier, self.seed, self.shard, self.nshards, self.known = mod, tier, seed, shard, nshards, known
        self.monitors, self.events, self.exceptions = {}, {}, {}
        self.feature_hashes = set()
        self.samples = []
        self.known_hits = {}
        self.violations = []
        self.cases = {}
        self.errors = []
        self.extra = {}
        self.stop = False               # a case did not end: what it left behind may stop every other
        self.dog = Watchdog()

    def count_event(self, op, out):
        self.events[op] = self.events.get(op, 0) + 1
        if out.exc is not None:
            k = '%s -> %s' % (op, type(out.exc).__name__)
            self.exceptions[k] = self.exceptions.get(k, 0) + 1

    def one(self, fam, index):
        rng = random.Random(case_seed(self.seed, self.mod.PROP, fam.name, index))
        ctx = Ctx(self, fam.name, index, rng)
        try:
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
            self.dog.start()
            try:
                fam.fn(ctx)
            finally:
                self.dog.stop()
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Violation as v:
            self.violate(ctx, v.monitor, v.message)
        except CpuLimit:
            self.violate(ctx, 'bounded-time', 'no result after %d CPU seconds' % CASE_CPU_S)
            self.stop = True
        except Hang as e:
            self.violate(ctx, 'no-hang', 'the call does not end: nothing has run for %d seconds, at %s' % (TICK_S * HANG_TICKS, ['%s:%d' % (f.filename, f.lineno) for f in traceback.extract_tb(e.__traceback__)][-6:]))
            self.stop = True
        except MemoryError:
            self.violate(ctx, 'bounded-memory', 'ran out of memory: ' + ''.join(traceback.format_exc()[-800:]))
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d' % (f.filename, f.lineno) for f in frames]
            if any(f.filename.startswith(REPO + '/neocore') for f in frames):
                # an accessor or operator of a returned object failed inside the code under test
                self.violate(ctx, 'unexpected-exception', '%s: %s at %s' % (type(e).__name__, e, where[-3:]))
            elif ctx.history and isinstance(e, UNUSABLE):
                # what the code under test gave could not even be looked at: None, another type, an object without its attributes
                self.violate(ctx, 'usable-result', 'the check could not go on with what the code under test gave (last call: %s): %s: %s at %s' % (ctx.history[-1][:2], type(e).__name__, e, where[-3:]))
            else:
                self.errors.append('%s/%s: %s' % (fam.name, index, traceback.format_exc()))
        self.cases[fam.name] = self.cases.get(fam.name, 0) + 1
        if ctx.features:
            h = hashlib.blake2b(repr((fam.name, sorted(map(repr, ctx.features)))).encode(), digest_size=8).hexdigest()
            self.feature_hashes.add(h)
        if index < 2 and ctx.history:
            self.sample_history(ctx)

    def sample_history(self, ctx):
        if len(self.samples) < 6:
            self.samples.append({'family': ctx.family, 'index': ctx.index, 'history': [[h[0], h[1], h[2]] for h in ctx.history[:6]]})

    def violate(self, ctx, monitor, message):
        self.violations.append({'property': self.mod.PROP, 'family': ctx.family, 'index': ctx.index, 'seed': self.seed, 'shard': self.shard,
                                'tier': self.tier, 'monitor': monitor, 'message': message[:4000],
                                'history': ctx.history[-200:]})

    def go(self):
        for fam in self.mod.FAMILIES:
            if self.stop:
                break
            n = fam.count(self.tier, self.mod.PROP)
            bad = 0
            for i in range(n):
                if fam.single:
                    if self.shard != 0:
                        break
                elif i % self.nshards != self.shard:
                    continue
                before = len(self.violations)
                self.one(fam, i)
                if len(self.violations) > before:
                    bad += 1
                if bad >= 3 or len(self.errors) >= 3 or self.stop:
                    break

    def result(self):
        return {'monitors': self.monitors, 'events': self.events, 'exceptions': self.exceptions,
                'features': sorted(self.feature_hashes), 'samples': self.samples, 'known_hits': self.known_hits,
                'violations': self.violations, 'cases': self.cases, 'errors': self.errors, 'extra': self.extra}


# --- line coverage of the code under test

class LineCoverage:
    def __init__(self):
        self.lines = {}

    def start(self):
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        mon.use_tool_id(self.tool, 'verif')
        prefix = REPO + '/neocore'

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(prefix):
                self.lines.setdefault(fn[len(REPO) + 1:], set()).add(lineno)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.LINE, line)
        mon.set_events(self.tool, mon.events.LINE)

    def result(self):
        return {k: sorted(v) for k, v in self.lines.items()}


def executable_lines(path):
    out = set()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(open(path).read(), path, 'exec')
    except Exception:
        return out
    todo = [code]
    while todo:
        c = todo.pop()
        for _, _, ln in c.co_lines():
            if ln:
                out.add(ln)
        todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
    return out


# --- dictionary of constants found in the code under test (workload bias only)

_DICT = None


def code_dictionary():
    """ints, texts and byte strings that occur in neocore; used to bias generated values only."""
    global _DICT
    if _DICT is None:
        ints, strs, byts = set(), set(), set()
        base = os.path.join(REPO, 'neocore')
        for root, dirs, files in sorted(os.walk(base)):
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                try:
                    tree = ast.parse(open(os.path.join(root, f), encoding='utf-8').read())
                except Exception:
                    continue
                docs = set()
                for n in ast.walk(tree):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                        docs.add(id(n.value))
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        v = n.value
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, int):
                            ints.add(v)
                        elif isinstance(v, str) and len(v) <= 70:
                            strs.add(v)
                        elif isinstance(v, bytes) and len(v) <= 70:
                            byts.add(v)
        _DICT = (sorted(ints), sorted(strs), sorted(byts))
    return _DICT


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    def onprof(sig, frame):
        raise CpuLimit()
    signal.signal(signal.SIGPROF, onprof)


def load_known(prop):
    """finding lines of known_findings.txt for this property: {id: text}"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: '):
                head, _, text = line[len('finding: '):].partition(' :: ')
                kv = dict(x.split('=', 1) for x in head.split())
                if kv.get('property') == prop:
                    out[kv['id']] = text
    return out


def write_json(path, obj):
    tmp = '%s.%d.tmp' % (path, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1)
        f.write('\n')
    os.replace(tmp, path)

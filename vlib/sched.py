"""
Runs the real code in several threads and decides where they switch.

Every thread executes its list of calls. Instrumentation (sys.monitoring, line and instruction
events in neocore, line events in the libraries it computes with) stops a thread at chosen points
and lets another one go on, so that one thread runs at a time and the switching points come from
the seed. A thread that blocks elsewhere (a lock of the code under test) is noticed, another one
is let go, and the blocked one is left out until it goes on. Mode 'free' switches nothing by itself: the interpreter does, at its
shortest interval.
"""
import _thread
import os
import random
import sys
import threading
import time
from vlib import core

TOOL = 3
LIBS = ('/bitcoin/', '/ecdsa/', '/base58/', '/base58.py')
_state = None
_codes = {}


def kind(code):
    k = _codes.get(code)
    if k is None:
        fn = code.co_filename
        if fn.startswith(core.REPO + '/neocore'):
            k = 2
        elif any(x in fn for x in LIBS):
            k = 1
        else:
            k = 0
        _codes[code] = k
    return k


def sleeping(tid):
    """is the thread of this process asleep (on a lock, say), as the kernel sees it"""
    try:
        with open('/proc/self/task/%d/stat' % tid) as f:
            return f.read().rpartition(')')[2].split()[0] != 'R'
    except (OSError, IndexError):
        return True


class State:
    def __init__(self, n, rng, p_lib, p_own, budget):
        self.n, self.rng, self.p = n, rng, (0, p_lib, p_own)
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for k in self.locks:
            k.acquire()
        self.alive = list(range(n))
        self.ids = {}
        self.tids = [0] * n
        self.runner = None
        self.blocked = set()              # threads seen to wait for something else than their turn
        self.progress = self.switches = self.stolen = self.points = 0
        self.pairs = set()
        self.where = [None] * n
        self.budget = budget
        self.trace = 0

    def wait(self, i):
        """until it is thread i's turn, or nobody goes on: then the one whose turn it was is blocked elsewhere"""
        still = 0
        while True:
            before = self.progress, self.runner
            if self.locks[i].acquire(timeout=.002 if still < 5 else .01):
                self.runner = i
                return
            r = self.runner
            if (self.progress, r) == before and (r is None or r not in self.alive or sleeping(self.tids[r])):
                still += 1
            else:
                still = 0
            if still >= 2:
                if r is not None:
                    self.blocked.add(r)
                self.runner = i
                self.stolen += 1
                self.progress += 1
                return

    def give(self, j):
        self.runner = j
        try:
            self.locks[j].release()
        except RuntimeError:
            pass

    def point(self, i, here, k):
        self.progress += 1
        self.points += 1
        if i in self.blocked:
            # it got what it waited for; it goes on when its turn comes
            self.blocked.discard(i)
            if self.runner != i and self.runner is not None:
                self.wait(i)
                return
            self.runner = i
        if self.budget <= 0 or self.rng.random() >= self.p[k]:
            return
        others = [j for j in self.alive if j != i and j not in self.blocked]
        if not others:
            return
        j = others[self.rng.randrange(len(others))]
        self.budget -= 1
        self.switches += 1
        self.where[i] = here
        self.pairs.add((here, self.where[j]))
        self.trace = hash((self.trace, here, j))
        self.give(j)
        self.wait(i)

    def finish(self, i):
        self.progress += 1
        self.alive.remove(i)
        self.blocked.discard(i)
        if self.runner not in (i, None):
            return
        ready = [j for j in self.alive if j not in self.blocked]
        if ready:
            self.give(ready[self.rng.randrange(len(ready))])
        else:
            self.runner = None


def _line(code, line):
    k = kind(code)
    if not k:
        return sys.monitoring.DISABLE
    s = _state
    if s is None:
        return
    i = s.ids.get(_thread.get_ident())
    if i is not None:
        s.point(i, '%s:%d' % (os.path.basename(code.co_filename), line), k)


def _instruction(code, offset):
    if kind(code) != 2:
        return sys.monitoring.DISABLE
    s = _state
    if s is None:
        return
    i = s.ids.get(_thread.get_ident())
    if i is not None:
        s.point(i, '%s@%d' % (code.co_name, offset), 2)


def _install(fine):
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'verif-sched')
        mon.register_callback(TOOL, mon.events.LINE, _line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _instruction)
    mon.set_events(TOOL, mon.events.LINE | (mon.events.INSTRUCTION if fine else 0))


def run(plans, seed, mode):
    """plans: per thread a list of functions. Gives ([[answers]], info)"""
    global _state
    n = len(plans)
    rng = random.Random(seed)
    out = [[] for _ in plans]
    problems = []
    if mode == 'free':
        return free(plans, out, rng)
    p_lib, p_own, fine = {'dense': (.05, .5, False), 'even': (.01, .08, False), 'sparse': (.0008, .01, False), 'fine': (.0005, .08, True), 'fine rare': (.0002, .01, True), 'own': (0, .3, False)}[mode]
    s = State(n, rng, p_lib, p_own, 4000)
    old = sys.getswitchinterval()
    sys.setswitchinterval(100)            # only the scheduler switches

    def body(i):
        s.tids[i] = _thread.get_native_id()
        s.ids[_thread.get_ident()] = i
        s.locks[i].acquire()
        try:
            for f in plans[i]:
                out[i].append(f())
        except BaseException as e:
            problems.append(repr(e))
        finally:
            s.ids.pop(_thread.get_ident(), None)
            s.finish(i)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    try:
        _install(fine)
        _state = s
        for t in ts:
            t.start()
        s.give(rng.randrange(n))
        for t in ts:
            t.join()
    finally:
        _state = None
        sys.monitoring.set_events(TOOL, 0)
        sys.setswitchinterval(old)
    return out, dict(switches=s.switches, pairs=s.pairs, stolen=s.stolen, points=s.points, problems=problems, trace=s.trace)


def free(plans, out, rng):
    n = len(plans)
    problems = []
    barrier = threading.Barrier(n)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    seq = []

    def body(i):
        try:
            barrier.wait(60)
            for k, f in enumerate(plans[i]):
                seq.append((i, k, 0))
                out[i].append(f())
                seq.append((i, k, 1))
        except BaseException as e:
            problems.append(repr(e))
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    # calls that overlapped calls of other threads
    open_, over = set(), 0
    for i, k, end in seq:
        if end:
            open_.discard((i, k))
        else:
            over += any(j != i for j, _ in open_)
            open_.add((i, k))
    return out, dict(switches=over, pairs=set(), stolen=0, points=0, problems=problems, trace=hash(tuple(seq)))

from vlib import kdf
kdf.install()
import json  # noqa: E402
import os  # noqa: E402
import bitcoin  # noqa: E402
from vlib import core, jobs, oracle, proc, sched, wire  # noqa: E402
from vlib.core import Family  # noqa: E402

PROP = 'C04'
kdf.on = True
JUDGE = jobs.Judge()
K = oracle.K1
MODES = ['dense', 'even', 'sparse', 'fine', 'fine rare', 'own', 'free']
QUICKOPS = [n for n in jobs.ALL if n != 'verify']
PAIRS = set()


def judged(ctx, monitor, plans, out, how):
    for i, (p, answers) in enumerate(zip(plans, out)):
        ctx.check('all-answered', len(answers) == len(p), how, 'thread %d gave %d answers to %d calls' % (i, len(answers), len(p)))
        for k, (j, res) in enumerate(zip(p, answers)):
            wrong = JUDGE.judge(j, res)
            ctx.check(monitor, wrong is None, how, 'thread %d call %d:' % (i, k), json.dumps(j), wrong or '')
            ctx.run.count_event(j[0], core.Outcome(j[0]))


def together(ctx, plans, mode, held=False, alone=True, shared=False):
    rng = ctx.rng
    seed = rng.getrandbits(60)
    if ctx.rng.random() < .3:
        # the process as it was before any use of the library
        bitcoin.change_curve(K.p, K.n, K.a, K.b, K.g[0], K.g[1])
    how = '%d threads, %s:' % (len(plans), mode)
    for i, p in enumerate(plans):
        ctx.note('thread %d' % i, json.dumps(p)[:600])
    if alone and rng.random() < .5:
        # one at a time first, so that a later difference is seen against this
        judged(ctx, 'alone', plans, [[jobs.execute(j) for j in p] for p in plans], 'one at a time:')
    made = {}
    if shared:
        # every object is made once and used by all threads
        made = {jobs.key(j): jobs.prepare(j) for p in plans for j in p}
    fns = [[made[jobs.key(j)] if shared else (jobs.prepare(j) if held else lambda j=j: jobs.execute(j)) for j in p] for p in plans]
    out, info = sched.run(fns, seed, mode)
    ctx.note('schedule', '%s: %d switches at %d points' % (mode, info['switches'], info['points']))
    ctx.check('threads-end', not info['problems'], how, str(info['problems']))
    judged(ctx, 'same-as-alone', plans, out, how)
    if alone and rng.random() < .5:
        judged(ctx, 'alone', plans, [[jobs.execute(j) for j in p] for p in plans], 'one at a time, afterwards:')
    e = ctx.run.extra
    for k in ('switches', 'points', 'stolen'):
        e['thread_' + k] = e.get('thread_' + k, 0) + info[k]
    PAIRS.update(info['pairs'])
    e['schedules_with_switches'] = e.get('schedules_with_switches', 0) + (info['switches'] > 0)
    if info['switches']:
        ctx.seen(mode, len(plans), tuple(sorted({j[0] for p in plans for j in p})), info['trace'])


def finish(run):
    run.extra['distinct_switch_pairs_by_worker'] = len(PAIRS)


def plan(rng, names, n, m):
    return [[jobs.generate(rng, names) for _ in range(rng.randrange(1, m + 1))] for _ in range(n)]


def streams(ctx):
    """streams of one kind of value in every thread, every kind in turn"""
    rng = ctx.rng
    plans = [[jobs.generate(rng, ['stream']) for _ in range(rng.randrange(3, 7))] for _ in range(rng.choice([2, 2, 3]))]
    for p in plans:
        for j in p:
            j[1].update(only=ctx.index)
    together(ctx, plans, (['dense', 'own', 'even', 'fine', 'dense', 'own'] + MODES)[ctx.index // len(wire.OPS) % 13], held=rng.random() < .3)


def same(ctx):
    """the same kind of call in every thread, with other arguments"""
    rng = ctx.rng
    names = sorted(set(QUICKOPS))
    name = names[ctx.index % len(names)]
    mode = MODES[(ctx.index // len(names) + ctx.index) % len(MODES)]
    n = rng.choice([2, 2, 3, 5])
    together(ctx, plan(rng, [name], n, 4 if name in ('sign', 'keypair', 'keypair-object', 'nep2-in', 'nep2-out', 'multiply', 'wallet') else 8), mode, held=rng.random() < .4)


def verifying(ctx):
    rng = ctx.rng
    together(ctx, [[jobs.generate(rng, ['verify'])] + ([jobs.generate(rng, ['keypair', 'sign', 'point'])] if rng.random() < .5 else []) for _ in range(rng.choice([2, 3]))], rng.choice(['dense', 'even', 'own', 'free', 'fine']), alone=False)


def mixed(ctx):
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 6])
    names = rng.sample(sorted(set(QUICKOPS)), rng.choice([2, 3, 8]))
    together(ctx, plan(rng, names, n, 5), rng.choice(MODES), held=rng.random() < .3)


def twins(ctx):
    """threads with the same arguments, and with one argument changed"""
    rng = ctx.rng
    name = rng.choice(sorted(set(QUICKOPS)))
    a, b = jobs.generate(rng, [name]), jobs.generate(rng, [name])
    together(ctx, [[rng.choice([a, b]) for _ in range(4)] for _ in range(rng.choice([2, 3]))], rng.choice(MODES), held=rng.random() < .3)


SHARED = [n for n in ('keypair-object', 'value', 'point', 'multiply', 'merkle', 'amount', 'integer', 'address-out', 'nep2-out', 'sign', 'hash', 'stream', 'redeem', 'script-hash', 'ecdsa', 'helpers') if n in jobs.OPS]


def shared(ctx):
    """threads using the same objects: key pairs, values, points, leaves, amounts"""
    rng = ctx.rng
    name = SHARED[ctx.index % len(SHARED)]
    a = jobs.generate(rng, [name])
    other = jobs.generate(rng, [rng.choice(SHARED)])
    together(ctx, [[a if rng.random() < .75 else other for _ in range(2 if name == 'nep2-out' else 5)] for _ in range(rng.choice([2, 2, 3]))], MODES[(ctx.index // len(SHARED)) % len(MODES)], shared=True)


def first(ctx):
    """the first calls of a process, made by several threads at once"""
    rng = ctx.rng
    n = rng.choice([2, 2, 3, 4])
    names = [['sign'], ['verify'], ['keypair'], ['sign', 'verify', 'keypair'], ['sign', 'keypair', 'nep2-out', 'nep2-in'], sorted(set(QUICKOPS)), ['hash', 'address-in', 'address-out', 'wif-in', 'script-hash'],
             ['point', 'multiply', 'keypair', 'ecdsa'], ['stream', 'merkle', 'amount', 'integer', 'value', 'helpers']][ctx.index % 9]
    plans = plan(rng, names, n, 1 if names == ['verify'] else 3)
    if names == ['verify']:
        for p in plans:
            p[0][1]['form'] = 0
    mode = MODES[ctx.index % len(MODES)]
    rc, o, e = proc.run([proc.PY, os.path.join(core.VERIF, 'vlib', 'fresh.py')], json.dumps(dict(threads=plans, seed=rng.getrandbits(60), mode=mode)).encode())
    for i, p in enumerate(plans):
        ctx.note('first calls of thread %d' % i, json.dumps(p)[:600])
    ctx.check('process-ends', rc == 0, e.decode('utf-8', 'replace')[-1500:])
    r = json.loads(o)
    judged(ctx, 'first-calls', plans, r['out'], 'first calls of a process, %d threads, %s:' % (n, mode))
    ctx.run.extra['fresh_processes'] = ctx.run.extra.get('fresh_processes', 0) + 1
    ctx.run.extra['fresh_switches'] = ctx.run.extra.get('fresh_switches', 0) + r['switches']
    ctx.seen('first', mode, n, tuple(sorted({j[0] for p in plans for j in p})), r['switches'])


def real(ctx):
    """the real scrypt, several threads"""
    from vlib import keys, nep2
    from neocore.KeyPair import KeyPair
    rng = ctx.rng
    n = 2
    ks, pws = [keys.key(rng) for _ in range(n)], [nep2.passphrase(rng) for _ in range(n)]
    want = [oracle.nep2_encrypt(k, pw) for k, pw in zip(ks, pws)]
    kdf.on = False
    try:
        out, info = sched.run([[lambda k=k, pw=pw: KeyPair(k).ExportNEP2(pw), lambda t=t, pw=pw: bytes(KeyPair.PrivateKeyFromNEP2(t, pw)).hex()] for k, pw, t in zip(ks, pws, want)], rng.getrandbits(60), 'free')
    finally:
        kdf.on = True
    ctx.check('threads-end', not info['problems'], str(info['problems']))
    ctx.check('same-as-alone', out == [[t, k.hex()] for t, k in zip(want, ks)], 'real scrypt', [k.hex() for k in ks], pws, out)
    ctx.seen('real', ctx.index)


FAMILIES = [Family('same', 560, 14000, same), Family('streams', 520, 6000, streams), Family('mixed', 300, 9000, mixed), Family('twins', 300, 6000, twins), Family('shared', 560, 14000, shared), Family('verifying', 40, 900, verifying), Family('first', 108, 2160, first), Family('real', 8, 80, real)]

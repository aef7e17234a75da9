from vlib import kdf
kdf.install()
import decimal  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402
import random  # noqa: E402
import bitcoin  # noqa: E402
from vlib import core, jobs, oracle, proc  # noqa: E402
from vlib.core import Family  # noqa: E402
from neocore.Cryptography.Crypto import Crypto  # noqa: E402
from neocore.KeyPair import KeyPair  # noqa: E402

PROP = 'C03'
kdf.on = True
JUDGE = jobs.Judge()

R, K = oracle.R1, oracle.K1
P192 = oracle.Curve('p192', 2 ** 192 - 2 ** 64 - 1, -3, 0x64210519E59C80E70FA7E9AB72243049FEB8DEECC146B9B1, 0xFFFFFFFFFFFFFFFFFFFFFFFF99DEF836146BC9B1B4D22831,
                    0x188DA80EB03090F67CBF20EB43A18800F4FF0AFD82FF1012, 0x07192B95FFC8DA78631011ED6B24CDD573F977A11E794811)


def switch(C):
    def go(ctx):
        bitcoin.change_curve(C.p, C.n, C.a, C.b, C.g[0], C.g[1])
    return go


def used(C):
    """other code that really works on its own curve"""
    def go(ctx):
        bitcoin.change_curve(C.p, C.n, C.a, C.b, C.g[0], C.g[1])
        k = ctx.rng.randrange(1, C.n)
        bitcoin.privkey_to_pubkey(k)
        bitcoin.ecdsa_raw_sign('%064x' % ctx.rng.getrandbits(256), '%064x' % (k % C.n))
    return go


def partly(ctx):
    """the other curve's order or base point only, the rest as before"""
    c = [R.p, R.n, R.a, R.b, R.g[0], R.g[1]]
    i = ctx.rng.randrange(6)
    c[i] = [K.p, K.n, K.a, K.b, K.g[0], K.g[1]][i]
    bitcoin.change_curve(*c)


def failing(ctx):
    """calls that are refused"""
    rng = ctx.rng
    bad = [lambda: Crypto.Sign('zz', '11' * 32), lambda: Crypto.Sign('00', 'zz'), lambda: Crypto.Sign('00', '00' * 32), lambda: Crypto.Sign(None, None), lambda: KeyPair(b''), lambda: KeyPair(bytes(32)), lambda: KeyPair(5),
           lambda: KeyPair(b'\xff' * 32), lambda: Crypto.VerifySignature('00', b'', b'\2' + bytes(32)), lambda: Crypto.VerifySignature('zz', b'\1' * 64, b'\2' + b'\xff' * 32), lambda: KeyPair.PrivateKeyFromWIF('L' * 52),
           lambda: KeyPair.PrivateKeyFromNEP2('6' * 58, 'x'), lambda: Crypto.ToScriptHash('zzz'), lambda: Crypto.ToAddress(None), lambda: KeyPair(b'\1' * 32).ExportNEP2('x'), lambda: KeyPair(b'\1' * 32).ExportNEP2('\ud800\ud800'),
           lambda: KeyPair(b'\1' * 96)]
    for f in rng.sample(bad, 3):
        try:
            f()
        except Exception:
            pass


def reseed(ctx):
    random.seed(ctx.rng.randrange(5))


def context(ctx):
    decimal.getcontext().prec = ctx.rng.choice([1, 2, 5, 28, 60])


def default(ctx):
    Crypto.Default()


def nothing(ctx):
    pass


SWITCHES = {'secp256k1': switch(K), 'secp256k1 in use': used(K), 'p192': switch(P192), 'p192 in use': used(P192), 'secp256r1': switch(R), 'nonsense': lambda ctx: bitcoin.change_curve(7, 5, 1, 1, 2, 3),
            'zeros': lambda ctx: bitcoin.change_curve(0, 0, 0, 0, 0, 0), 'none': lambda ctx: bitcoin.change_curve(*[None] * 6), 'partly': partly}
OTHERS = {'failing calls': failing, 'random seeded': reseed, 'decimal context': context, 'Default()': default}
SW = sorted(SWITCHES)


def disturb(ctx, name=None):
    rng = ctx.rng
    if name is None:
        name = rng.choice(SW) if rng.random() < .6 else rng.choice(sorted(OTHERS))
    ctx.note('other code', name)
    (SWITCHES.get(name) or OTHERS.get(name) or nothing)(ctx)
    ctx.run.extra['curve_switches'] = ctx.run.extra.get('curve_switches', 0) + (name in SWITCHES)
    return name


def ask(ctx, j, thunk, how, monitor='depends-on-arguments-only'):
    out = ctx.call(j[0], lambda _: thunk(), j[1])
    res = ctx.returned('answered', out)
    wrong = JUDGE.judge(j, res)
    ctx.check(monitor, wrong is None, how, json.dumps(j), wrong or '')
    return res


def history(ctx):
    rng = ctx.rng
    try:
        pool = [jobs.generate(rng, jobs.CRYPTO) for _ in range(rng.choice([1, 3, 6]))]
        pool += [jobs.near(rng, j) for j in pool if rng.random() < .6]
        held, last = [], 'start'
        for step in range(rng.choice([6, 12, 24])):
            k = rng.random()
            if k < .35:
                last = disturb(ctx)
            elif k < .5:
                j = rng.choice(pool)
                held.append((j, jobs.prepare(j), last))
            elif k < .75 and held:
                j, t, before = rng.choice(held)
                ask(ctx, j, t, 'made after %s, asked after %s:' % (before, last))
                ctx.seen(j[0], before, last)
            else:
                j = rng.choice(pool)
                ask(ctx, j, lambda: jobs.execute(j), 'asked after %s:' % last)
                ctx.seen(j[0], last)
                last = j[0]
    finally:
        decimal.setcontext(decimal.Context())


NAMES = sorted(set(jobs.CRYPTO))
GRID = [(n, a, b) for n in NAMES for a in SW for b in SW + ['']]


def switched(ctx):
    """every kind of call: prepared after one switch, made right after another"""
    n, a, b = GRID[(ctx.index * 7) % len(GRID)]
    j = jobs.generate(ctx.rng, [n])
    disturb(ctx, a)
    t = jobs.prepare(j)
    if b:
        disturb(ctx, b)
    ask(ctx, j, t, 'made after %s, asked after %s:' % (a, b or 'nothing'))
    if n != 'verify':
        ask(ctx, j, t, 'asked again:')
        ask(ctx, j, lambda: jobs.execute(j), 'made and asked again:')
    ctx.seen(n, a, b)


def between(ctx):
    """two different calls in a row, after a switch: the first must not decide the second"""
    rng = ctx.rng
    for _ in range(3):
        p = jobs.generate(rng, jobs.CRYPTO)
        q = jobs.generate(rng, jobs.CRYPTO) if rng.random() < .5 else jobs.near(rng, p)
        s = disturb(ctx, rng.choice(SW))
        ask(ctx, p, lambda: jobs.execute(p), 'after %s:' % s)
        s2 = disturb(ctx, rng.choice(SW)) if rng.random() < .5 else ''
        ask(ctx, q, lambda: jobs.execute(q), 'after %s, %s, %s:' % (s, p[0], s2))
        if rng.random() < .7:
            ask(ctx, p, lambda: jobs.execute(p), 'again, after %s:' % q[0])
        ctx.seen(s, p[0], s2, q[0])


def common(ctx):
    """the same jobs in every worker process, in another order and after other disturbances"""
    r = random.Random('C03common%s' % ctx.seed)
    js = [jobs.generate(r, [n for n in jobs.CRYPTO if n not in ('verify', 'wallet')]) for _ in range(60)]
    order = list(range(len(js)))
    ctx.rng.shuffle(order)
    table = ctx.run.extra.setdefault('_answers', {})
    for i in order:
        if ctx.rng.random() < .3:
            disturb(ctx, ctx.rng.choice(SW))
        table[str(i)] = ask(ctx, js[i], lambda: jobs.execute(js[i]), 'common job %d:' % i)
    ctx.seen('common', ctx.index)


CHEAP = [n for n in jobs.CRYPTO if n not in ('verify', 'wallet', 'sign', 'nep2-in', 'nep2-out', 'multiply', 'keypair', 'keypair-object')]


def long(ctx):
    """hundreds of different arguments, then the early ones again"""
    rng = ctx.rng
    names = CHEAP if ctx.index % 4 else ['sign', 'keypair', 'keypair-object', 'redeem']
    n = 1100 if ctx.index % 4 else 330
    js = [jobs.generate(rng, names) for _ in range(n)]
    js += [jobs.near(rng, j) for j in rng.sample(js, n // 4)]
    for j in js + js[:n // 4] + rng.sample(js, n // 8):
        if rng.random() < .05:
            disturb(ctx)
            decimal.setcontext(decimal.Context())
        ask(ctx, j, lambda: jobs.execute(j), 'in a long history:')
    ctx.seen('long', ctx.index)


FIRST = ['sign', 'verify', 'keypair', 'wif-in', 'point', 'address-in', 'address-out', 'script-hash', 'keypair-object', 'nep2-in', 'nep2-out', 'multiply', 'redeem', 'hash', 'keypair-refused']


def fresh(ctx):
    """the call is the first one of a process; then others follow; compared with this long-lived process"""
    rng = ctx.rng
    n = FIRST[ctx.index % len(FIRST)]
    j = jobs.generate(rng, [n])
    if ctx.index % 3 == 0 and n == 'verify':
        j[1]['form'] = 0
    js = [j] + [jobs.generate(rng, [x for x in jobs.CRYPTO if x != 'verify']) for _ in range(6)]
    rc, o, e = proc.run([proc.PY, os.path.join(core.VERIF, 'vlib', 'fresh.py')], json.dumps(dict(jobs=js)).encode())
    ctx.note('fresh process', 'status %d' % rc)
    ctx.check('process-ends', rc == 0, e.decode('utf-8', 'replace')[-1500:])
    out = json.loads(o)['out']
    ctx.check('process-ends', len(out) == len(js))
    for i, (j, answers) in enumerate(zip(js, out)):
        for a, res in enumerate(answers):
            wrong = JUDGE.judge(j, res)
            ctx.check('fresh-process', wrong is None, 'call %d of a fresh process, time %d:' % (i, a), json.dumps(j), wrong or '')
        disturb(ctx, rng.choice(SW))
        ask(ctx, j, lambda: jobs.execute(j), 'in this process:')
    ctx.run.extra['fresh_processes'] = ctx.run.extra.get('fresh_processes', 0) + 1
    ctx.seen('first', n, js[1][0])


def real(ctx):
    """with the real scrypt"""
    rng = ctx.rng
    from vlib import keys, nep2
    k, pw = keys.key(rng), nep2.passphrase(rng)
    kdf.on = False
    try:
        disturb(ctx, rng.choice(SW))
        kp = ctx.returned('answered', ctx.call('KeyPair', KeyPair, k))
        disturb(ctx, rng.choice(SW))
        t = nep2.export(ctx, kp, k, pw, True)
        disturb(ctx, rng.choice(SW))
        nep2.gives(ctx, KeyPair, t, pw, k, 'after a switch', True)
        ctx.seen('real', ctx.index)
    finally:
        kdf.on = True


FAMILIES = [Family('switched', 600, 8 * len(GRID), switched), Family('history', 720, 14000, history), Family('between', 450, 9000, between), Family('common', 8, 80, common), Family('long', 24, 480, long),
            Family('fresh', 60, 1500, fresh), Family('real', 8, 120, real)]

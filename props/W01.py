from vlib import entropy
entropy.install()
import json  # noqa: E402
import os  # noqa: E402
import random  # noqa: E402
from vlib import core, oracle, proc  # noqa: E402
from vlib.core import Family  # noqa: E402
from neocore.bin import cli  # noqa: E402
from neocore.Cryptography import Helper  # noqa: E402

PROP = 'W01'


def record(ctx, kind, k):
    """every key made anywhere goes into one table; the merge step looks at all of them"""
    table = ctx.run.extra.setdefault('_' + kind, [])
    table.append(k.hex())
    ctx.run.extra[kind + '_keys'] = ctx.run.extra.get(kind + '_keys', 0) + 1


def wallet(ctx, w):
    ctx.check('wallet-shape', isinstance(w, dict) and set(w) == {'private_key', 'address'}, w)
    k = oracle.wif_decode(w['private_key'])
    ctx.check('valid-private-key', k is not None and 0 < int.from_bytes(k, 'big') < oracle.R1.n and len(w['private_key']) == 52, w)
    ctx.equal('address-of-key', w['address'], oracle.key_address(k), w['private_key'])
    record(ctx, 'wallet', k)
    ctx.seen(k[0] >> 4, k[16] >> 4, k[31] & 15)
    return k


def rkey(ctx, r):
    ctx.check('key-shape', isinstance(r, (bytes, bytearray)) and len(r) == 64 and all(c in b'0123456789abcdef' for c in r), r)
    k = bytes.fromhex(bytes(r).decode())
    record(ctx, 'random', k)
    return k


def wallets(ctx):
    before, calls, n = entropy.drawn, entropy.calls, 5
    ks = []
    for i in range(n):
        random.seed(ctx.index // 3 * 2 + i // 3)              # the general-purpose generator starts from the same state every time
        ks.append(wallet(ctx, ctx.returned('created', ctx.call('create_wallet', cli.create_wallet))))
    ctx.check('keys-differ', len(set(ks)) == n)
    if entropy.calls > calls:
        # observed source: at least 256 bits per key
        ctx.check('entropy-drawn', entropy.drawn - before >= 32 * n, '%d bytes for %d keys' % (entropy.drawn - before, n))
        ctx.run.extra['system_entropy_bytes'] = ctx.run.extra.get('system_entropy_bytes', 0) + entropy.drawn - before


def random_keys(ctx):
    before, calls, n = entropy.drawn, entropy.calls, 50
    ks = []
    for i in range(n):
        random.seed(ctx.index // 3 * 9 + i // 5)
        ks.append(rkey(ctx, ctx.returned('created', ctx.call('random_key', Helper.random_key))))
    ctx.check('keys-differ', len(set(ks)) == n)
    ctx.seen('random', ks[0][0], ks[0][31])
    if entropy.calls > calls:
        ctx.check('entropy-drawn', entropy.drawn - before >= 32 * n, '%d bytes for %d keys' % (entropy.drawn - before, n))


def program(ctx):
    """the command itself, several processes started at the same moment"""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        outs = list(ex.map(lambda _: proc.np_utils('--create-wallet'), range(3)))
    ks = []
    for st, o, e in outs:
        ctx.note('np-utils --create-wallet', 'status %s: %s %s' % (st, o, e))
        ctx.check('program-status', st == 0 and e == '', o, e)
        try:
            w = json.loads(o)
        except ValueError:
            w = o
        ks.append(wallet(ctx, w))
    ctx.check('keys-differ', len(set(ks)) == len(ks))
    ctx.seen('program', ctx.index)


def pinned(ctx):
    """processes with the same random state, clock and process id; forks of one process"""
    what = ['wallet', 'random_key'][ctx.index % 2]
    fork = ctx.index % 4 >= 2
    n = 6 if what == 'wallet' else 400
    groups = []
    for _ in range(1 if fork else 3):
        rc, o, e = proc.run([proc.PY, os.path.join(core.VERIF, 'vlib', 'pinned.py'), what, str(n), 'fork' if fork else 'spawn'])
        ctx.check('pinned-process-runs', rc == 0, e.decode('utf-8', 'replace')[-800:])
        groups += json.loads(o)
    ks = []
    for g in groups:
        for x in g:
            ks.append(wallet(ctx, x) if what == 'wallet' else rkey(ctx, x.encode()))
    ctx.check('keys-differ-across-processes', len(set(ks)) == len(ks), 'pinned %s, %s: %d keys, %d different' % (what, 'forked' if fork else 'started alike', len(ks), len(set(ks))))
    ctx.seen('pinned', what, fork)


FAMILIES = [Family('wallets', 400, 10000, wallets), Family('random_keys', 1600, 40000, random_keys), Family('program', 8, 80, program), Family('pinned', 16, 160, pinned)]

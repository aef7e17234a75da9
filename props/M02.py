from vlib.core import Family
from vlib import oracle
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256

PROP = 'M02'


def shape(node):
    """(hash, left, right) of what remains"""
    if node.LeftChild is None and node.RightChild is None:
        return bytes(node.Hash.Data)
    return (bytes(node.Hash.Data), None if node.LeftChild is None else shape(node.LeftChild), None if node.RightChild is None else shape(node.RightChild))


def expected(levels, flags, d, i):
    """shape that must remain of node i at level d"""
    n = len(levels[0])
    lo, hi = i << d, min((i + 1) << d, n)
    if d == 0 or not any(flags[lo:hi]):
        return levels[d][i]
    j = min(2 * i + 1, len(levels[d - 1]) - 1)
    return (levels[d][i], expected(levels, flags, d - 1, 2 * i), expected(levels, flags, d - 1, j))


def frontier(s):
    return {s} if isinstance(s, bytes) else frontier(s[1]) | frontier(s[2])


def proofs(ctx, s):
    """every remaining inner node is the hash of its two children"""
    if isinstance(s, bytes):
        return s
    ctx.check('children-kept-together', s[1] is not None and s[2] is not None, 'a node lost one child', s[0])
    l, r = proofs(ctx, s[1]), proofs(ctx, s[2])
    ctx.check('proof-chain', oracle.hash256(l + r) == s[0], 'node', s[0], 'is not the hash of its children')
    return s[0]


def judge(ctx, n, flags, ls=None, as_type=None, rng=None):
    rng = rng or ctx.rng
    if rng.random() < .6:
        # any value but zero is an on flag
        flags = [f and rng.choice([1, 2, 9, 10, 13, 32, 48, 49, 127, 128, 254, 255, rng.randrange(1, 256)]) for f in flags]
    ls = ls or [rng.randbytes(32) for _ in range(n)]
    levels = oracle.merkle_levels(ls)
    tree = ctx.returned('tree-built', ctx.call('MerkleTree', MerkleTree, [UInt256(data=b) for b in ls]))
    trim(ctx, tree, n, flags, ls, levels, as_type or rng.choice([bytes, bytearray, list]))
    return tree, levels, ls


def trim(ctx, tree, n, flags, ls, levels, as_type):
    where = '%d leaves, flags %s' % (n, list(flags))
    full = (list(flags) + [0] * n)[:n]
    if ctx.rng.random() < .4:
        # looked at before: the answer then must not be the answer afterwards
        was = ctx.returned('trimmed', ctx.call('ToHashArray', tree.ToHashArray), where)
        ctx.check('hash-array', {bytes(h.Data) for h in was} == frontier(shape(tree.Root)), where, 'before trimming')
    arg = as_type(flags)
    ctx.returned('trimmed', ctx.call('Trim', tree.Trim, arg), where)
    ctx.check('flags-unchanged', arg == as_type(flags), where)
    ctx.equal('root-unchanged', bytes(tree.Root.Hash.Data), levels[-1][0], where)
    s = shape(tree.Root)
    proofs(ctx, s)
    left = frontier(s)
    for i in range(n):
        if full[i]:
            ctx.check('flagged-leaf-kept', ls[i] in left, where, 'leaf', str(i), 'is gone')
            ctx.check('sibling-kept', ls[min(i ^ 1, n - 1)] in left, where, 'sibling of leaf', str(i), 'is gone')
    want = expected(levels, full, len(levels) - 1, 0)
    ctx.check('exactly-what-is-needed', s == want, where, 'remaining nodes differ from those needed; remaining leaves:', sorted(left), 'needed', sorted(frontier(want)))
    arr = ctx.returned('trimmed', ctx.call('ToHashArray', tree.ToHashArray), where)
    ctx.check('hash-array', {bytes(h.Data) for h in arr} == left, where)
    ctx.returned('trimmed', ctx.call('Trim', tree.Trim, as_type(flags)), where, 'second time')
    ctx.check('idempotent', shape(tree.Root) == s, where, 'changed by trimming again')
    ctx.seen(n, tuple(map(bool, full)) if n <= 16 else sum(map(bool, full)))


def every_vector(ctx):
    """all flag vectors of all small trees, shortest trees first"""
    i = ctx.index + 1
    n = 1
    while i > 1 << n:
        i -= 1 << n
        n += 1
    v = i - 1
    flags = [v >> j & 1 for j in range(n)]
    judge(ctx, n, flags)
    ctx.run.extra['flag_vectors_of_small_trees'] = ctx.run.extra.get('flag_vectors_of_small_trees', 0) + 1
    ctx.seen('vector', n, v)


def single_flags(ctx):
    """one flag, at every leaf of every tree up to 40 leaves (quick) and beyond"""
    n = ctx.index + 1
    ls = [ctx.rng.randbytes(32) for _ in range(n)]
    for j in range(n):
        flags = [0] * n
        flags[j] = ctx.rng.choice([1, 2, 128, 255])
        judge(ctx, n, flags if ctx.rng.random() < .7 else flags[:j + 1], ls)
        flags = [1] * n
        flags[j] = 0
        judge(ctx, n, flags, ls)


def short_flags(ctx):
    """missing flags count as off"""
    rng = ctx.rng
    n = rng.randrange(1, 40) if rng.random() < .8 else rng.randrange(40, 300)
    m = rng.randrange(n + 1) if rng.random() < .7 else min(n, rng.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129]))
    flags = [rng.choice([0, 0, 1, 7, 255]) for _ in range(m)]
    if rng.random() < .3:
        flags = [0] * max(0, m - 1) + [1] * min(m, 1)
    judge(ctx, n, flags)
    judge(ctx, n, [])
    ctx.seen('short', n, len(flags))


def random_trees(ctx):
    rng = ctx.rng
    n = rng.choice([rng.randrange(1, 20), rng.randrange(1, 70), rng.randrange(1, 300), rng.choice([127, 128, 129, 255, 256, 257])])
    p = rng.choice([0, .02, .1, .3, .5, .9, 1])
    flags = [int(rng.random() < p) for _ in range(n)]
    k = rng.randrange(4)
    if k == 0:
        a = rng.randrange(n)
        b = rng.randrange(a, n) + 1
        flags = [int(a <= i < b) for i in range(n)]
    ls = None
    if k == 1:
        pool = [rng.randbytes(32) for _ in range(3)]
        ls = [rng.choice(pool) for _ in range(n)]
    judge(ctx, n, flags, ls)
    ctx.seen('random', n, p, k)


def big(ctx):
    """trees of thousands of leaves, few or nearly all flags on, often short flags"""
    rng = ctx.rng
    n = [1023, 1024, 1025, 2049, 4097, 5000, 8191, 65537][ctx.index % 8] if ctx.index < 8 or rng.random() < .3 else rng.randrange(300, 9000)
    few = {rng.randrange(n) for _ in range(rng.choice([0, 1, 2, 9]))} | set(rng.sample([0, n - 1, n // 2, 255, 256, n - 2], 2))
    flags = [int(i in few) for i in range(n)]
    if rng.random() < .3:
        flags = [1 - f for f in flags]
    elif rng.random() < .5:
        flags = flags[:max(few) + 1]
    judge(ctx, n, flags)
    ctx.seen('big', n, len(few))


def nested(ctx):
    """trim, then trim with fewer flags: as if trimmed once with the fewer flags"""
    rng = ctx.rng
    n = rng.randrange(1, 50)
    flags = [int(rng.random() < .7) for _ in range(n)]
    tree, levels, ls = judge(ctx, n, flags)
    for _ in range(3):
        flags = [f if rng.random() < .6 else 0 for f in flags]
        trim(ctx, tree, n, flags, ls, levels, bytes)
    ctx.seen('nested', n)


def others(ctx):
    """trimming one tree leaves another tree over the same hashes alone"""
    rng = ctx.rng
    n = rng.randrange(1, 30)
    us = [UInt256(data=rng.randbytes(32)) for _ in range(n)]
    a, b = (ctx.returned('tree-built', ctx.call('MerkleTree', MerkleTree, us)) for _ in range(2))
    before = shape(b.Root)
    ctx.returned('trimmed', ctx.call('Trim', a.Trim, bytes(n)))
    ctx.check('other-tree-unchanged', shape(b.Root) == before)
    ctx.seen('others', n)


# all vectors of trees up to 10 (quick) and 14 (thorough) leaves
FAMILIES = [Family('every_vector', (1 << 11) - 2, (1 << 15) - 2, every_vector), Family('single_flags', 40, 200, single_flags), Family('short_flags', 1800, 20000, short_flags),
            Family('random_trees', 4500, 60000, random_trees), Family('big', 24, 800, big), Family('nested', 1200, 10000, nested), Family('others', 600, 4000, others)]

from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256

PROP = 'M01'


def leaves(rng, n):
    k = rng.randrange(8)
    if k == 0:
        return [bytes(32)] * n
    if k == 1:
        b = rng.randbytes(32)
        return [b] * n
    if k == 2:
        pool = [gen.special_bytes(rng, 32) for _ in range(3)]
        return [rng.choice(pool) for _ in range(n)]
    if k == 3:
        return [i.to_bytes(32, rng.choice(['big', 'little'])) for i in range(n)]
    if k == 4:                                   # the last one repeated, as an explicit pair would be
        ls = [rng.randbytes(32) for _ in range(max(1, n - 1))]
        return (ls + [ls[-1]])[:n]
    return [gen.special_bytes(rng, 32) if rng.random() < .3 else rng.randbytes(32) for _ in range(n)]


def height(n):
    h = 1
    while n > 1:
        n = (n + 1) // 2
        h += 1
    return h


def walk(ctx, tree, levels):
    """every node at its place, with its hash and links"""
    top = len(levels) - 1
    ctx.check('links', tree.Root.Parent is None and tree.Root.IsRoot() is True, 'root has a parent')
    level = [tree.Root]
    for d in range(top, -1, -1):
        want = levels[d]
        ctx.check('node-hashes', len(level) == len(want) and all(bytes(n.Hash.Data) == w for n, w in zip(level, want)),
                  'level', str(d), 'of', str(len(levels[0])), 'leaves:', [bytes(n.Hash.Data) for n in level], 'expected', want)
        below = []
        for i, n in enumerate(level):
            if d == 0:
                ctx.check('links', n.LeftChild is None and n.RightChild is None and n.IsLeaf() is True, 'leaf with children')
                continue
            ctx.check('links', n.LeftChild is not None and n.RightChild is not None and n.IsLeaf() is False, 'inner node without children')
            ctx.check('links', n.LeftChild.Parent is n and n.RightChild.Parent is n and n.LeftChild.IsRoot() is False, 'child does not name its parent; level', str(d))
            below.append(n.LeftChild)
            if 2 * i + 1 < len(levels[d - 1]):
                ctx.check('links', n.RightChild is not n.LeftChild, 'pair made of one node')
                below.append(n.RightChild)
            else:
                ctx.check('links', bytes(n.RightChild.Hash.Data) == bytes(n.LeftChild.Hash.Data), 'odd last node is not paired with itself')
        level = below


def judge(ctx, ls):
    rng = ctx.rng
    n = len(ls)
    levels = oracle.merkle_levels(ls)
    root = levels[-1][0]
    buf = [bytearray(b) for b in ls]
    us = [UInt256(data=b) for b in buf]
    if n > 1 and rng.random() < .3:              # the same object at several places
        for i in range(1, n):
            if ls[i] == ls[0]:
                us[i] = us[0]
    for b in buf:
        b[:] = bytes(32)
    given = list(us)
    arg = us if rng.random() < .8 else tuple(us)
    tree = ctx.returned('tree-built', ctx.call('MerkleTree', MerkleTree, arg))
    ctx.check('root', type(tree.Root.Hash) is UInt256 and bytes(tree.Root.Hash.Data) == root, '%d hashes' % n, tree.Root.Hash, 'expected', root)
    got = ctx.returned('tree-built', ctx.call('ComputeRoot', MerkleTree.ComputeRoot, arg))
    ctx.check('root', bytes(got.Data) == root and got == tree.Root.Hash, 'ComputeRoot of %d hashes' % n, got, 'expected', root)
    ctx.check('depth', type(tree.Depth) is int and tree.Depth == len(levels) == height(n), '%d hashes' % n, tree.Depth, 'expected', len(levels))
    arr = ctx.returned('tree-built', ctx.call('ToHashArray', tree.ToHashArray))
    ctx.check('leaf-set', len(arr) == len(set(ls)) and {bytes(h.Data) for h in arr} == set(ls), '%d hashes' % n, arr)
    walk(ctx, tree, levels)
    ctx.check('given-unchanged', len(us) == n and all(a is b and bytes(a.Data) == w for a, b, w in zip(us, given, ls)), '%d hashes' % n)
    again = ctx.returned('tree-built', ctx.call('ComputeRoot', MerkleTree.ComputeRoot, us))
    ctx.check('root', bytes(again.Data) == root, 'second time')
    ctx.seen(n, len(set(ls)) == n, len(levels))


def sizes(ctx):
    judge(ctx, leaves(ctx.rng, ctx.index + 1))


def many(ctx):
    rng = ctx.rng
    judge(ctx, leaves(rng, rng.choice([1, 2, 3, rng.randrange(1, 20), rng.randrange(1, 20), rng.randrange(1, 130)])))


BIG = [1023, 1024, 1025, 2047, 2049, 3000, 4095, 4096, 4097, 8193, 10001, 16385, 32769, 65535, 65537, 100001]


def big(ctx):
    judge(ctx, leaves(ctx.rng, BIG[ctx.index % len(BIG)] if ctx.index < len(BIG) else ctx.rng.randrange(1000, 20000)))


def empty(ctx):
    for e in ([], ()):
        ctx.refused('empty-refused', ctx.call('MerkleTree', MerkleTree, e))
        ctx.refused('empty-refused', ctx.call('ComputeRoot', MerkleTree.ComputeRoot, e))
    b = ctx.rng.randbytes(32)
    got = ctx.returned('root', ctx.call('ComputeRoot', MerkleTree.ComputeRoot, [UInt256(data=b)]))
    ctx.equal('root', bytes(got.Data), b)
    ctx.seen('empty')


def order(ctx):
    """swapping two different hashes, dropping or repeating one gives another tree, never the old one"""
    rng = ctx.rng
    n = rng.randrange(2, 40)
    ls = [rng.randbytes(32) for _ in range(n)]
    tree = ctx.returned('tree-built', ctx.call('MerkleTree', MerkleTree, [UInt256(data=b) for b in ls]))
    before = bytes(tree.Root.Hash.Data)
    for _ in range(3):
        i, j = rng.sample(range(n), 2)
        q = list(ls)
        q[i], q[j] = q[j], q[i]
        judge(ctx, q)
        judge(ctx, ls[:i] + ls[i + 1:])
        judge(ctx, ls + [ls[i]])
    ctx.check('earlier-tree-unchanged', bytes(tree.Root.Hash.Data) == before == oracle.merkle_levels(ls)[-1][0])
    walk(ctx, tree, oracle.merkle_levels(ls))


MINED = keys.mined('pair')


def mined(ctx):
    """pairs whose hash has unusual bytes, as a whole tree and inside others"""
    mark, p = MINED[ctx.index % len(MINED)]
    pair = [p[:32], p[32:]]
    judge(ctx, pair)
    rng = ctx.rng
    for n in (1, 2, 3, rng.randrange(4, 20)):
        ls = leaves(rng, n)
        judge(ctx, pair + ls)
        judge(ctx, ls + ls[-1:] * (n % 2) + pair)
    judge(ctx, pair * 2)
    judge(ctx, pair * 3)
    ctx.seen(mark)


FAMILIES = [Family('mined', 3 * len(MINED), 30 * len(MINED), mined), Family('sizes', 600, 3000, sizes), Family('many', 5000, 100000, many), Family('big', 16, 160, big), Family('empty', 8, 50, empty), Family('order', 500, 8000, order)]

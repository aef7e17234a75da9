"""Key workloads: boundary, structured and mined keys (corpus/vectors.json, see tools/mine.py)."""
import json
import os
from vlib import core, gen, oracle

N = oracle.R1.n
_V = None


def vectors():
    global _V
    if _V is None:
        _V = json.load(open(os.path.join(core.VERIF, 'corpus', 'vectors.json')))
    return _V


_M = None


def mined(kind):
    """[(mark, bytes)] in a fixed order: inputs whose hashes or checksums have unusual bytes (tools/mine2.py)"""
    global _M
    if _M is None:
        _M = json.load(open(os.path.join(core.VERIF, 'corpus', 'mined.json')))
    return [(m, bytes.fromhex(h)) for m, hs in sorted(_M[kind].items()) for h in hs]


def mined_keys():
    """[(kind, key)] in a fixed order"""
    return [(k, bytes.fromhex(h)) for k, hs in sorted(vectors()['keys'].items()) for h in hs]


def mined_sigs():
    return [(k, bytes.fromhex(a), bytes.fromhex(m)) for k, hs in sorted(vectors()['sigs'].items()) for a, m in hs]


EDGE = sorted({k % N for k in
               list(range(1, 40)) + [N - i for i in range(1, 40)] + [1 << i for i in range(256)] + [(1 << i) - 1 for i in range(1, 257)]
               + [N >> 1, (N >> 1) + 1, (N + 1) // 3, oracle.R1.p % N, oracle.K1.n % N, oracle.R1.g[0] % N] } - {0})


def scalar(rng):
    """1 .. N-1"""
    k = rng.randrange(10)
    if k == 0:
        return rng.choice(EDGE)
    if k == 1:
        v = int.from_bytes(rng.choice(mined_keys())[1], 'big')
    elif k == 2:
        v = int.from_bytes(gen.special_bytes(rng, 32), 'big')
    elif k == 3:
        v = rng.getrandbits(rng.randrange(1, 256))
    elif k == 4:
        v = gen.runs(rng, 256)
    else:
        v = rng.randrange(1, N)
    return v % N or 1


def key(rng):
    return scalar(rng).to_bytes(32, 'big')


def kind(k):
    """class of a key, for features"""
    pt = oracle.pub_of(k)
    c = oracle.compress(pt)
    return (len(k) - len(k.lstrip(b'\0')), k[0] >> 4, k[31] & 15, c[0], c[1] == 0, c[32] == 0, pt[1] >> 248 == 0)


def shaped(rng, top):
    """a number below top with structure: small, large, few bits, zero bytes, near powers of two"""
    k = rng.randrange(6)
    if k == 0:
        v = rng.getrandbits(rng.randrange(1, 256))
    elif k == 1:
        v = top - 1 - rng.getrandbits(rng.randrange(1, 230))
    elif k == 2:
        v = (1 << rng.randrange(256)) + rng.randrange(-3, 4)
    elif k == 3:
        v = rng.getrandbits(256) >> 8 * rng.randrange(1, 16) << 8 * rng.randrange(1, 9)
    elif k == 4:
        v = rng.randrange(0, 300)
    else:
        v = int.from_bytes(gen.special_bytes(rng, 32), 'big')
    return v % top


def shaped_point(rng):
    """a point of the curve whose x or y has structure"""
    while True:
        v = shaped(rng, oracle.R1.p)
        pt = oracle.R1.lift_x(v, rng.getrandbits(1)) if rng.random() < .5 else oracle.R1.lift_y(v, rng.randrange(99))
        if pt is not None and pt[1]:
            return pt

#!/opt/venv/bin/python
"""
Searches for inputs whose hashes, checksums or intermediate hashes have unusual bytes (two or three zero or 0xff bytes at
an end, all hex characters) and writes corpus/mined.json. Uses hashlib and vlib.oracle only, not the code under test.
"""
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import oracle as o  # noqa: E402
from Crypto.Hash import RIPEMD160  # noqa: E402

HEX = set(b'0123456789abcdefABCDEF')


def marks(b):
    """what is unusual about a hash"""
    for name, run in (('zero', b'\0'), ('ff', b'\xff')):
        for n in (4, 3, 2):
            if b[:n] == run * n:
                yield '%slead:%d' % (name, n)
                break
        for n in (4, 3, 2):
            if b[-n:] == run * n:
                yield '%strail:%d' % (name, n)
                break
    if len(b) == 4 and set(b) <= HEX:
        yield 'hex:4'
    elif set(b[:6]) <= HEX:
        yield 'hexlead:6'
    if len(b) > 4 and b[1:4] == b'\0\0\0':
        yield 'inner:3'


def work(args):
    seed, secs = args
    rng = random.Random('mine2%d' % seed)
    found, t0, n = {}, time.time(), 0

    def look(kind, b, what):
        for m in marks(b):
            l = found.setdefault(kind, {}).setdefault(m, [])
            if len(l) < 3:
                l.append(what.hex())
    while time.time() - t0 < secs:
        for _ in range(1000):
            n += 1
            m = rng.randbytes(rng.choice([1, 8, 32, 35, 64, 71]))
            s = hashlib.sha256(m).digest()
            look('sha256', s, m)
            look('hash256', hashlib.sha256(s).digest(), m)
            look('hash160', RIPEMD160.new(s).digest(), m)
            k = rng.randbytes(32)
            if k < o.b32(o.R1.n):
                look('wif', o.hash256(b'\x80' + k + b'\x01')[:4], k)
            h = rng.randbytes(20)
            look('address', o.hash256(b'\x17' + h)[:4], h)
            p = rng.randbytes(64)
            look('pair', o.hash256(p), p)
    return found, n


def merge(names):
    path = os.path.join(HERE, 'corpus', 'mined.json')
    v = json.load(open(path))
    for n in names:
        for line in open(n):
            kind, mark, h = line.split()
            b = bytes.fromhex(h)
            c = o.hash256({'wif': b'\x80' + b + b'\x01', 'address': b'\x17' + b}[kind])[:4]
            assert mark in list(marks(c)), line
            l = v[kind].setdefault(mark, [])
            if h not in l and len(l) < 4:
                l.append(h)
    json.dump({k: dict(sorted(x.items())) for k, x in v.items()}, open(path, 'w'), indent=0)


if __name__ == '__main__':
    if sys.argv[1] == '--merge':
        sys.exit(merge(sys.argv[2:]))
    secs = int(sys.argv[1])
    with multiprocessing.Pool(8) as pool:
        parts = pool.map(work, [(i, secs) for i in range(8)])
    out = {}
    for f, n in parts:
        for k in f:
            for m, l in f[k].items():
                o_ = out.setdefault(k, {}).setdefault(m, [])
                o_ += l[:max(0, 4 - len(o_))]
    out = {k: dict(sorted(v.items())) for k, v in sorted(out.items())}
    json.dump(out, open(os.path.join(HERE, 'corpus', 'mined.json'), 'w'), indent=0)
    print(sum(n for f, n in parts), {k: {m: len(l) for m, l in v.items()} for k, v in out.items()})

#!/opt/venv/bin/python
"""
Searches for rare inputs (keys whose public key, script hash or address hash has leading or
trailing zero bytes or hex-looking bytes, messages whose digest or deterministic signature has
leading zero bytes) and writes corpus/vectors.json. Uses the references of vlib.oracle only, not the code under test.
"""
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import oracle as o  # noqa: E402
from Crypto.Hash import RIPEMD160  # noqa: E402

P = o.R1.p


def lz(b):
    return len(b) - len(b.lstrip(b'\0'))


def tz(b):
    return len(b) - len(b.rstrip(b'\0'))


def batch(start, n):
    """(key, point) for start+0 .. start+n-1, by adding multiples of G with one shared inversion"""
    steps = batch.steps
    if len(steps) < n:
        q = None
        for i in range(n):
            q = o.R1.add(q, o.R1.g)
            steps.append(q)
    base = o.R1.mul_g(start - 1)
    bx, by = base
    pre, acc = [], 1
    for i in range(n):
        pre.append(acc)
        acc = acc * (steps[i][0] - bx) % P
    inv = pow(acc, -1, P)
    for i in range(n - 1, -1, -1):
        sx, sy = steps[i]
        w = inv * pre[i] % P
        inv = inv * (sx - bx) % P
        m = (sy - by) * w % P
        x = (m * m - bx - sx) % P
        yield start + i, x, (m * (bx - x) - by) % P


batch.steps = []


def keys(args):
    seed, secs = args
    rng = random.Random('mine%d' % seed)
    found = {}
    t0 = time.time()
    n = 0

    def hit(kind, level, key):
        l = found.setdefault('%s:%d' % (kind, level), [])
        if len(l) < 6:
            l.append(key.to_bytes(32, 'big').hex())
    while time.time() - t0 < secs:
        start = rng.randrange(2, o.R1.n - 10 ** 6)
        for key, x, y in batch(start, 4096):
            n += 1
            xb = x.to_bytes(32, 'big')
            yb = y.to_bytes(32, 'big')
            for kind, b in (('x', xb), ('y', yb)):
                if b[0] == 0:
                    hit(kind + 'lead', lz(b), key)
                if b[31] == 0:
                    hit(kind + 'trail', tz(b), key)
            h = RIPEMD160.new(hashlib.sha256(b'\x21' + (b'\3' if y & 1 else b'\2') + xb + b'\xac').digest()).digest()
            if h[0] == 0:
                hit('hlead', lz(h), key)
            if h[-1] == 0:
                hit('htrail', tz(h), key)
            if h[0] == 0x17:
                hit('h17', 1, key)
            if n % 8 == 0:
                ah = o.hash256(o.address(h).encode())[:4]
                if ah[0] == 0:
                    hit('ahlead', lz(ah), key)
                if ah[3] == 0:
                    hit('ahtrail', tz(ah), key)
                if all(c in b'0123456789abcdefABCDEF' for c in ah):
                    hit('ahhex', 1, key)
                if all(0x20 <= c < 0x7f for c in ah):
                    hit('ahtext', 1, key)
    return found, n


def sigs(args):
    seed, secs = args
    rng = random.Random('sig%d' % seed)
    found, t0, n = {}, time.time(), 0

    def hit(kind, level, key, m):
        l = found.setdefault('%s:%d' % (kind, level), [])
        if len(l) < 6:
            l.append([key.hex(), m.hex()])
    key = None
    while time.time() - t0 < secs:
        if n % 1000 == 0:
            key = rng.randbytes(32)
            if not 0 < int.from_bytes(key, 'big') < o.R1.n:
                continue
            d = int.from_bytes(key, 'big')
        n += 1
        m = rng.randbytes(rng.choice([0, 1, 8, 32, 40]))
        dg = hashlib.sha256(m).digest()
        k = o.rfc6979_k(key, dg)
        r, s = o.R1.ecdsa_sign(int.from_bytes(dg, 'big'), d, k)
        s2 = min(s, o.R1.n - s)
        for kind, v in (('rlead', r), ('slead', s), ('slowlead', s2)):
            b = v.to_bytes(32, 'big')
            if b[0] == 0:
                hit(kind, lz(b), key, m)
        for kind, v in (('rtrail', r), ('strail', s)):
            b = v.to_bytes(32, 'big')
            if b[31] == 0:
                hit(kind, tz(b), key, m)
        if r.to_bytes(32, 'big')[0] == 0 and s2.to_bytes(32, 'big')[0] == 0:
            hit('bothlead', 1, key, m)
        if dg[0] == 0:
            hit('elead', lz(dg), key, m)
    return found, n


def digests(secs):
    found, t0, i = {}, time.time(), 0
    while time.time() - t0 < secs:
        for _ in range(100000):
            i += 1
            m = b'msg%d' % i
            d = hashlib.sha256(m).digest()
            if d[0] == 0 and d[1] == 0:
                l = found.setdefault('e:%d' % lz(d), [])
                if len(l) < 6:
                    l.append(m.hex())
            if d[0] == 255 and d[1] == 255 and d[2] == 255:
                found.setdefault('ehigh', []).append(m.hex())
    return found, i


def merge(parts):
    out = {}
    for f, n in parts:
        for k, v in f.items():
            out.setdefault(k, [])
            out[k] = (out[k] + v)[:12]
    return dict(sorted(out.items()))


if __name__ == '__main__':
    secs = int(sys.argv[1])
    with multiprocessing.Pool(8) as pool:
        a = pool.map_async(keys, [(i, secs) for i in range(4)])
        b = pool.map_async(sigs, [(i, secs) for i in range(3)])
        c = pool.map_async(digests, [secs])
        ka, sb, dc = a.get(), b.get(), c.get()
    print(sum(n for _, n in ka), sum(n for _, n in sb), sum(n for _, n in dc))
    out = {'keys': merge(ka), 'sigs': merge(sb), 'digests': merge(dc)}
    json.dump(out, open(os.path.join(HERE, 'corpus', 'vectors.json'), 'w'), indent=0)
    for k in out:
        print(k, {x: len(v) for x, v in out[k].items()})

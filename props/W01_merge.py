"""Offline oracles over all keys made by all processes: no repetition, every bit used and balanced, no relation between neighbours."""
import math


def merge(extras, mon, seed, tier):
    out = []

    def bad(monitor, message):
        out.append({'property': 'W01', 'family': 'wallets', 'index': 0, 'seed': seed, 'tier': tier, 'monitor': monitor, 'message': message, 'history': []})

    def judged(monitor, cond, message, n=1):
        mon[monitor] = mon.get(monitor, 0) + n
        if not cond:
            bad(monitor, message)
    for kind in ('wallet', 'random'):
        lists = [e.get('_' + kind, []) for e in extras]
        keys = [k for l in lists for k in l]
        if not keys:
            continue
        judged('never-repeats', len(set(keys)) == len(keys), '%s: %d keys, %d different' % (kind, len(keys), len(set(keys))), len(keys))
        for i in range(4):
            part = [k[16 * i:16 * i + 16] for k in keys]
            judged('parts-never-repeat', len(set(part)) == len(part), '%s: bytes %d to %d repeat among %d keys' % (kind, 8 * i, 8 * i + 7, len(keys)), len(keys))
        n = len(keys)
        ints = [int(k, 16) for k in keys]
        # a fair bit is outside 7 standard deviations with probability 3e-12
        limit = 3.5 * math.sqrt(n)
        for b in range(256):
            ones = sum(v >> b & 1 for v in ints) if n <= 20000 else sum(v >> b & 1 for v in ints[:20000])
            m = min(n, 20000)
            judged('every-bit-used', abs(ones - m / 2) <= 3.5 * math.sqrt(m), '%s: bit %d is set in %d of %d keys' % (kind, b, ones, m))
        for b in range(255):
            m = min(n, 4000)
            same = sum((v >> b & 1) == (v >> b + 1 & 1) for v in ints[:m])
            judged('neighbouring-bits-independent', abs(same - m / 2) <= 3.5 * math.sqrt(m), '%s: bits %d and %d agree in %d of %d keys' % (kind, b, b + 1, same, m))
        for l in lists:
            v = [int(k, 16) for k in l]
            for a, b in zip(v, v[1:]):
                d = bin(a ^ b).count('1')
                judged('successive-keys-unrelated', 64 <= d <= 192, '%s: successive keys differ in %d bits' % (kind, d))
    return out

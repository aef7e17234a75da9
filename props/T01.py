import contextlib
import io
import re
import string
import sys
from vlib.core import Family
from vlib import gen, oracle, proc
from neocore.bin import cli

PROP = 'T01'
B58 = oracle.B58


def in_process(*args):
    """cli.main with these arguments: (status, stdout, stderr); any exception but SystemExit propagates"""
    out, err, argv = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = ['np-utils'] + list(args)
    status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                status = cli.main() or 0
            except SystemExit as e:
                status = e.code
                if isinstance(status, str):
                    err.write(status + '\n')
                    status = 1
                status = status or 0
    finally:
        sys.argv = argv
    return status, out.getvalue(), err.getvalue()


def run(ctx, real, opt, text):
    args = (opt, text) if not text.startswith('-') and ctx.rng.random() < .7 else (opt + '=' + text,)
    out = ctx.call('np-utils' if real else 'main', proc.np_utils if real else in_process, *args)
    st, o, e = ctx.returned('command-ends', out, args)
    ctx.check('no-traceback', 'Traceback' not in o + e, args, e[-500:])
    return st, o, e


ADDR = re.compile(r'(?<![1-9A-HJ-NP-Za-km-z])A[1-9A-HJ-NP-Za-km-z]{33}(?![1-9A-HJ-NP-Za-km-z])')


def ok_a2s(ctx, real, text, h):
    st, o, e = run(ctx, real, '--address-to-scripthash', text)
    ctx.check('status-0', st == 0, repr(text), st, o, e)
    lines = o.splitlines()
    ctx.check('three-forms', len(lines) == 3 and e == '', repr(text), o, e)

    def line(label):
        got = [x for x in lines if label in x]
        ctx.check('three-forms', len(got) == 1, label, o)
        return got[0]
    big, little, fmt = line('big endian'), line('little endian'), line('format')
    ctx.check('forms-right', big.split()[-1] == '0x' + h[::-1].hex() and little.split()[-1] == h.hex() and fmt.endswith(': ' + repr(h)), repr(text), o, 'hash', h)
    return big.split()[-1], little.split()[-1]


def ok_s2a(ctx, real, text, h):
    st, o, e = run(ctx, real, '--scripthash-to-address', text)
    ctx.check('status-0', st == 0, repr(text), st, o, e)
    lines = o.splitlines()
    ctx.check('address-printed', bool(lines) and lines[-1] == oracle.address(h) and e == '', repr(text), o, 'expected', oracle.address(h))
    ctx.check('one-address', ADDR.findall(o) == [oracle.address(h)], o)
    for x in lines:
        if 'ig endian scripthash' in x:
            ctx.check('forms-right', x.split()[-1] == '0x' + h[::-1].hex(), o)
    return lines[-1]


def fails(ctx, real, opt, text, why):
    st, o, e = run(ctx, real, opt, text)
    ctx.check('status-1', st == 1, why, repr(text), 'status', str(st), 'output', repr(o), repr(e))
    last = [x for x in (o + e).splitlines() if x.strip()]
    ctx.check('message', bool(last) and len(last[-1]) < 200, why, repr(text), repr(o), repr(e))
    found = [a for a in ADDR.findall(o) if oracle.address_decode(a) is not None]
    ctx.check('no-result', not found and 'neo-python format' not in o and (opt == '--scripthash-to-address' or not re.search(r'(?<![0-9a-f])[0-9a-f]{40}(?![0-9a-f])', o)), why, repr(text), repr(o))


def both_ways(ctx, real):
    rng = ctx.rng
    h = gen.special_bytes(rng, 20)
    a = oracle.address(h)
    big, little = ok_a2s(ctx, real, a, h)
    ctx.equal('inverse', ok_s2a(ctx, real, big, h), a)
    ctx.equal('inverse', ok_s2a(ctx, real, little, h), a)
    ok_s2a(ctx, real, '0x' + h[::-1].hex().upper(), h)
    ok_s2a(ctx, real, h.hex().upper(), h)
    if rng.random() < .3:
        # both conversions in one run
        g = rng.randbytes(20)
        out = ctx.call('np-utils' if real else 'main', proc.np_utils if real else in_process, '--address-to-scripthash', a, '--scripthash-to-address', '0x' + g[::-1].hex())
        st, o, e = ctx.returned('command-ends', out)
        ctx.check('both-in-one-run', st == 0 and '0x' + h[::-1].hex() in o and h.hex() in o and o.splitlines()[-1] == oracle.address(g), o, e)
    ctx.seen(real, h[0], h[19], len(h.strip(b'\0')))


def decorated(rng, s):
    """as a command line can hold it"""
    t = gen.decorated(rng, s).replace('\0', '').replace('\ud800', '')
    return s + '!' if '0' * 40 in t or 'A' * 34 in t else t


def bad_address(rng):
    h = gen.special_bytes(rng, 20)
    a = oracle.address(h)
    k = rng.randrange(19)
    i = rng.randrange(34)
    t = [lambda: decorated(rng, a), lambda: gen.confused(rng, a) or a[:-1], lambda: decorated(rng, a), lambda: a[:i] + rng.choice(B58) + a[i + 1:], lambda: a[:-1], lambda: a + rng.choice(B58), lambda: a[:i] + rng.choice('0OIl_ é') + a[i + 1:], lambda: oracle.b58check(bytes([rng.randrange(256)]) + h),
         lambda: oracle.b58check(b'\x17' + rng.randbytes(rng.randrange(40))), lambda: '', lambda: gen.text(rng, rng.randrange(50)).replace('\0', ''), lambda: '0x' + h.hex(), lambda: h.hex(), lambda: a.lower(),
         lambda: a[:17], lambda: a + a, lambda: '1' + a, lambda: oracle.b58encode(b'\x17' + h + oracle.sha256(b'\x17' + h)[:4]), lambda: ''.join(rng.choice(B58) for _ in range(34))][k]()
    return t, 'address %d' % k


def bad_hash(rng):
    h = gen.special_bytes(rng, 20)
    k = rng.randrange(22)
    i = rng.randrange(1, 40)
    hx = h.hex()
    t = [lambda: gen.confused(rng, rng.choice([hx, '0x' + hx])) or hx[:-1], lambda: decorated(rng, hx), lambda: decorated(rng, hx), lambda: decorated(rng, '0x' + hx), lambda: hx[:-1], lambda: hx[:-2], lambda: hx + '0', lambda: hx + '00', lambda: '0x' + hx[:-1], lambda: '0x' + hx[:-2], lambda: '0x' + hx + '00', lambda: hx[:i] + rng.choice('gxGXé -_٣') + hx[i + 1:],
         lambda: '0x' + hx[:i] + rng.choice('gxGXé -_٣') + hx[i + 1:], lambda: '', lambda: '0x', lambda: 'x' + hx, lambda: '0x0x' + hx, lambda: '0x0x' + hx[4:], lambda: gen.text(rng, rng.randrange(60)).replace('\0', ''),
         lambda: oracle.address(h), lambda: '0x' + gen.text(rng, 40).replace('\0', 'q'), lambda: rng.choice([hx + ' ', ' ' + hx, '0x ' + hx, hx[:i] + ' ' + hx[i:], hx[:20] + '  ' + hx[20:38], '0x' + hx[:19] + '\n' + hx[20:], '0x' + hx[:36] + '    '])][k]()
    return t, 'script hash %d' % k


HASH = re.compile('(0x)?[0-9a-fA-F]{40}\\Z')


def refuse(ctx, real):
    rng = ctx.rng
    t, why = bad_address(rng)
    if oracle.address_decode(t.rstrip()) is None:
        fails(ctx, real, '--address-to-scripthash', t, why)
        ctx.seen(real, why)
    t, why = bad_hash(rng)
    if not HASH.match(t):
        fails(ctx, real, '--scripthash-to-address', t, why)
        ctx.seen(real, why)


def main_good(ctx):
    both_ways(ctx, False)


def main_bad(ctx):
    refuse(ctx, False)


def program_good(ctx):
    both_ways(ctx, True)


def program_bad(ctx):
    refuse(ctx, True)


def program_mixed(ctx):
    """a wrong value beside a right one; no option; invalid bytes as argument"""
    rng = ctx.rng
    h = rng.randbytes(20)
    k = ctx.index % 4
    if k == 0:
        out = ctx.call('np-utils', proc.np_utils)
        st, o, e = ctx.returned('command-ends', out)
        ctx.check('status-1', st == 1 and 'Traceback' not in e, 'no option', o, e)
    elif k == 1:
        out = ctx.call('np-utils', proc.np_utils, '--address-to-scripthash', oracle.address(h)[:-1], '--scripthash-to-address', '0x' + h.hex())
        st, o, e = ctx.returned('command-ends', out)
        ctx.check('status-1', st == 1 and 'Traceback' not in e, 'one of two is wrong', o, e)
    elif k == 2:
        out = ctx.call('np-utils', proc.np_utils, '--scripthash-to-address', '0x' + h.hex()[:-1] + 'g', '--address-to-scripthash', oracle.address(h))
        st, o, e = ctx.returned('command-ends', out)
        ctx.check('status-1', st == 1 and 'Traceback' not in e, 'one of two is wrong', o, e)
    else:
        for opt in ('--address-to-scripthash', '--scripthash-to-address'):
            bad = b'A' + bytes(rng.choice([0x80, 0xff, 0xc3, 0xe2]) for _ in range(rng.choice([5, 33, 39])))
            out = ctx.call('np-utils', proc.np_utils, opt, bad)
            st, o, e = ctx.returned('command-ends', out)
            ctx.check('status-1', st == 1 and 'Traceback' not in o + e, 'invalid bytes', o, e)
    ctx.seen('mixed', k)


def main_mixed(ctx):
    """several options in one run, in any order: one wrong value decides"""
    rng = ctx.rng
    h, g = gen.special_bytes(rng, 20), gen.special_bytes(rng, 20)
    a, x = oracle.address(h), rng.choice(['0x' + g[::-1].hex(), g.hex()])
    bad_a, why_a = bad_address(rng)
    bad_x, why_x = bad_hash(rng)
    if oracle.address_decode(bad_a.rstrip()) is not None or HASH.match(bad_x):
        return
    k = ctx.index % 6
    parts = [('--address-to-scripthash=' + [a, bad_a, None, bad_a, a, None][k], k in (1, 3)) if [a, bad_a, None, bad_a, a, None][k] is not None else None,
             ('--scripthash-to-address=' + [bad_x, x, bad_x, bad_x, x, x][k], k in (0, 2, 3))]
    args = [q[0] for q in parts if q] + (['--create-wallet'] if k in (2, 5) or rng.random() < .5 else [])
    rng.shuffle(args)
    st, o, e = ctx.returned('command-ends', ctx.call('main', in_process, *args), args)
    ctx.check('no-traceback', 'Traceback' not in o + e, args, e[-500:])
    if k < 4:
        ctx.check('status-1', st == 1, 'several options', args, st, repr(o), repr(e))
        ctx.check('message', bool((o + e).strip()), args)
    else:
        ctx.check('status-0', st == 0 and e == '', args, st, repr(o), repr(e))
        ctx.check('both-in-one-run', oracle.address(g) in o and (k == 5 or '0x' + h[::-1].hex() in o and h.hex() in o), args, repr(o))
    ctx.seen('several', k, len(args), args[0][:8])


FAMILIES = [Family('main_mixed', 600, 12000, main_mixed), Family('main_good', 1500, 40000, main_good), Family('main_bad', 4000, 100000, main_bad), Family('program_good', 16, 400, program_good), Family('program_bad', 48, 2000, program_bad),
            Family('program_mixed', 16, 200, program_mixed)]

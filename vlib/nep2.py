"""Shared by K03 and K04: recorded NEP-2 calls with their reference answers."""
import unicodedata
from vlib import gen, kdf, oracle

B58 = oracle.B58


def nfc(s):
    return unicodedata.normalize('NFC', s)


def passphrase(rng):
    k = rng.randrange(12)
    if k == 0:
        s = rng.choice(['TestingOneTwoThree', 'Satoshi', 'pwd', '12', '  ', 'aa', '\t\n', '\u03d2\u0301\u0000\U00010400\U0001f4a9', 'ab' * 32, 'c\u0327\u0301',
                        'Å' * 5, 'A\u030a' * 5, '\u212bngstrom', '\ufb01\u2460', 'p\x00', '\x00p', '0x00', '가각힣', '가각' + 'x', 'é' * 40, 'e\u0301', '\u304b\u3099', '\u1100\u1161\u11a8', 'u\u0308\u0304', '\u0958', '\u0958\u0344'])
    elif k == 1:
        s = gen.text(rng, rng.choice([2, 3, 63, 64, 65, 66, 127, 128, 129, 200, 1000]))
    elif k == 2:
        s = ''.join(rng.choice('éüÅñçôạ가힣각') for _ in range(rng.randrange(2, 20)))
    elif k == 3:
        s = unicodedata.normalize('NFD', ''.join(rng.choice('éüÅñçôạ가힣각') for _ in range(rng.randrange(2, 20))))
    elif k == 4:
        s = ''.join(chr(rng.choice([rng.randrange(32, 0xd800), rng.randrange(0xe000, 0x110000)])) for _ in range(rng.randrange(2, 12)))
    else:
        s = gen.text(rng, rng.randrange(2, 30))
    return s if len(s) >= 2 else s + 'xy'


def kind(s):
    return (len(s.encode('utf-8')) // 16, s == nfc(s), s.isascii(), '\0' in s, s != s.strip())


def wrong_passphrase(rng, pw):
    """a passphrase close to pw that is not canonically equivalent to it"""
    for _ in range(50):
        k = rng.randrange(16)
        i = rng.randrange(len(pw))
        if k == 0:
            t = pw.swapcase()
        elif k == 1:
            t = pw[:i] + pw[i].swapcase() + pw[i + 1:]
        elif k == 2:
            t = rng.choice([pw + ' ', ' ' + pw, pw + '\n', pw.strip(), pw + '\u00a0', pw + '\u200b'])
        elif k == 3:
            t = pw[:-1]
        elif k == 4:
            t = pw[1:]
        elif k == 5:
            t = unicodedata.normalize(rng.choice(['NFKC', 'NFKD']), pw)
        elif k == 6:
            t = unicodedata.normalize('NFKD', pw).encode('ascii', 'ignore').decode()
        elif k == 7:
            t = rng.choice(['', 'a', 'aa', '\0', 'None', 'password'])
        elif k == 8:
            t = pw[::-1]
        elif k == 9:
            t = pw.encode('utf-8').hex()
        elif k == 10:
            t = pw.encode('utf-8').decode('latin-1')
        elif k == 11:
            t = pw + rng.choice('aA0 \u0301')
        elif k == 12:
            t = pw[:64]
        elif k == 13:
            t = pw.lower() if rng.random() < .5 else pw.casefold()
        elif k == 14:
            t = pw[:i] + chr(ord(pw[i]) ^ 1 if ord(pw[i]) not in range(0xd800, 0xe000) else 65) + pw[i + 1:]
        else:
            t = gen.mutate_text(rng, pw, 'aZ0 é')
        if nfc(t) != nfc(pw) and not any(0xd800 <= ord(c) < 0xe000 for c in t):
            return t, k
    return pw + 'w', 99


def export(ctx, kp, k, pw, real=False):
    """ExportNEP2 recorded; must be the standard text"""
    if real:
        out = ctx.call('ExportNEP2', kp.ExportNEP2, pw)
        wants = [oracle.nep2_encrypt(k, pw)]
    else:
        with kdf.standin() as st:
            out = ctx.call('ExportNEP2', kp.ExportNEP2, pw)
        wants = [oracle.nep2_encrypt(k, pw, kdf.cheap)]
        if not st.used:
            wants.append(oracle.nep2_encrypt(k, pw))
    got = ctx.returned('export-given', out, repr(pw))
    ctx.check('export-standard', isinstance(got, str) and got in wants and len(got) == 58, 'key', k, 'passphrase', repr(pw), 'gave', got, 'expected', wants[0])
    return got


def decrypt(ctx, KeyPair, text, pw, real=False):
    """PrivateKeyFromNEP2 recorded; gives (outcome, [keys the reference allows])"""
    if real:
        out = ctx.call('PrivateKeyFromNEP2', KeyPair.PrivateKeyFromNEP2, text, pw)
        want = [oracle.nep2_decrypt(text, pw)]
    else:
        with kdf.standin() as st:
            out = ctx.call('PrivateKeyFromNEP2', KeyPair.PrivateKeyFromNEP2, text, pw)
        want = [oracle.nep2_decrypt(text, pw, kdf.cheap)]
        if out.ok and not st.used:
            want.append(oracle.nep2_decrypt(text, pw))
    return out, [w for w in want if w is not None]


def gives(ctx, KeyPair, text, pw, k, why, real=False):
    out, want = decrypt(ctx, KeyPair, text, pw, real)
    got = ctx.returned('decryption-given', out, why, repr(pw))
    ctx.check('same-key', bytes(got) == k and len(got) == 32, why, 'text', text, 'passphrase', repr(pw), 'gave', got, 'expected', k)
    if bytes(got) not in want:
        raise RuntimeError('reference disagrees with the workload')


def refuses(ctx, KeyPair, text, pw, why, real=False, monitor='wrong-refused'):
    """refused unless the standard says this is an encryption under pw"""
    out, want = decrypt(ctx, KeyPair, text, pw, real)
    if want:
        ctx.note('reference', 'is an encryption under this passphrase: %s' % why)
        if out.ok:
            ctx.check('same-key', bytes(out.value) in want, why, repr(pw), text, out.value)
        return False
    ctx.refused(monitor, out, why, 'text', repr(text), 'passphrase', repr(pw))
    return True

"""Workload generators: boundary-biased values. All randomness comes from the case's rng."""
import unicodedata

from vlib.core import code_dictionary

HEXD = b'0123456789abcdefABCDEF'


BLANKS = [' ', '\t', '\n', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2003', '\u3000', '\u200b', '\ufeff', '\0']


def dict_int(rng):
    ints = code_dictionary()[0]
    return rng.choice(ints) if ints else 0


def runs(rng, bits):
    """a number below 2**bits made of long runs of equal bits"""
    v = n = 0
    bit = rng.getrandbits(1)
    while n < bits:
        m = rng.choice([1, 1, 2, 3, rng.randrange(1, 20), rng.choice([4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192])])
        if bit:
            v |= ((1 << m) - 1) << n
        n += m
        bit ^= 1
    return v & ((1 << bits) - 1)


def uint(rng, bits):
    """Unsigned value below 2**bits, biased to boundaries."""
    top = (1 << bits) - 1
    k = rng.randrange(13)
    if k == 12:
        return runs(rng, bits)
    if k == 0:
        return rng.choice([0, 1, 2, top, top - 1, top >> 1, (top >> 1) + 1])
    if k == 1:
        v = (1 << rng.randrange(bits)) + rng.randrange(-2, 3)
    elif k == 2:
        v = (1 << (8 * rng.randrange((bits + 7) // 8))) + rng.randrange(-2, 3)
    elif k == 3:
        v = rng.choice([0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0xfffffffe, 0xffffffff, 0x100000000])
    elif k == 4:
        v = dict_int(rng) + rng.randrange(-1, 2)
    elif k == 5:
        v = rng.getrandbits(8) * (((1 << bits) - 1) // 255)          # one byte repeated
    elif k == 6:
        v = int.from_bytes(special_bytes(rng, (bits + 7) // 8), 'little')
    elif k == 7:
        v = rng.randrange(300)
    else:
        v = rng.getrandbits(rng.randrange(1, bits + 1))
    return v & top if v >= 0 else (-v) & top


def sint(rng, bits):
    v = uint(rng, bits)
    return v - (1 << bits) if v >> (bits - 1) else v


def bigint(rng, maxbits=600):
    """Signed integer of any size."""
    k = rng.randrange(9)
    if k == 8:
        v = runs(rng, rng.randrange(1, maxbits))
    elif k == 0:
        v = rng.choice([0, 1, 2, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536])
    elif k <= 2:
        v = (1 << (8 * rng.randrange(maxbits // 8))) * rng.choice([1, 128, 127, 255]) + rng.randrange(-3, 4)
    elif k == 3:
        v = (1 << rng.randrange(maxbits)) + rng.randrange(-3, 4)
    elif k == 4:
        v = dict_int(rng) + rng.randrange(-1, 2)
    elif k == 5:
        v = rng.randrange(-200, 200)
    else:
        v = rng.getrandbits(rng.randrange(1, maxbits))
    return -v if rng.random() < .5 else v


LENGTHS = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 39, 40, 41, 55, 56, 57, 63, 64, 65, 127, 128, 129, 252, 253,
           254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]
BIG_LENGTHS = [4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000]


# sizes around the points where counts and buffers change representation
HUGE_COUNTS = [65534, 65535, 65536, 65537, 70000, 4096, 8192, 10000, 16384, 32768, 99999, 131072, 131073]
HUGE_LENGTHS = [65534, 65535, 65536, 65537, 1 << 17, (1 << 17) + 1, 1 << 20, (1 << 20) + 1, (1 << 20) - 1, 10 ** 6, 1 << 16, 300000, (1 << 22) + 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]


def length(rng, big=0.02):
    r = rng.random()
    if r < big:
        if rng.random() < .4:
            # around multiples of a block, of any size
            return max(0, rng.choice([16, 32, 55, 64, 128, 256, 512, 1000, 1024, 4096]) * rng.randrange(1, 17) + rng.choice([-1, 0, 0, 0, 1, 64, 32, rng.randrange(64)]))
        return rng.choice(BIG_LENGTHS)
    if r < .35:
        return rng.choice(LENGTHS)
    if r < .4:
        v = dict_int(rng)
        if 0 <= v <= 3000:
            return v
    if r < .8:
        return rng.randrange(0, 40)
    return rng.randrange(0, 300)


def special_bytes(rng, n):
    """Exactly n bytes with structure: zeros, hex digits, runs, embedded constants, patterns."""
    if n == 0:
        return b''
    k = rng.randrange(14)
    if k == 0:
        b = bytes(n)
    elif k == 1:
        b = b'\xff' * n
    elif k == 2:
        b = bytes(rng.choice(HEXD) for _ in range(n))
    elif k == 3:
        z = rng.randrange(n + 1)
        b = bytes(z) + rng.randbytes(n - z)
    elif k == 4:
        z = rng.randrange(n + 1)
        b = rng.randbytes(n - z) + bytes(z)
    elif k == 5:
        b = bytes([rng.getrandbits(8)]) * n
    elif k == 6:
        b = bytes(rng.choice(b' \t\n\r\x00\x0b\x0c') for _ in range(n))
    elif k == 7:
        b = bytes(rng.choice(b'\x00\x01\x7f\x80\xff') for _ in range(n))
    elif k == 8:
        byts, strs = code_dictionary()[2], code_dictionary()[1]
        pool = list(byts) + [s.encode('utf-8', 'ignore') for s in strs] or [b'\0']
        b = bytearray(rng.randbytes(n))
        for _ in range(rng.randrange(1, 3)):
            p = rng.choice(pool)
            o = rng.choice([0, max(0, n - len(p)), rng.randrange(n)])
            b[o:o + len(p)] = p
        b = bytes(b[:n])
    elif k == 9:
        v = abs(dict_int(rng))
        b = (v.to_bytes((v.bit_length() + 7) // 8 or 1, rng.choice(['little', 'big'])) + rng.randbytes(n))[:n]
    elif k == 10:
        b = bytearray(rng.randbytes(n))
        b[rng.randrange(n)] = rng.choice([0, 1, 0x7f, 0x80, 0xff])
        b = bytes(b)
    elif k == 11:
        unit = rng.randbytes(rng.randrange(1, 5))
        b = (unit * (n // len(unit) + 1))[:n]
    elif k == 12:
        b = bytearray(n)
        b[rng.randrange(n)] = rng.randrange(1, 256)
        b = bytes(b)
    else:
        b = rng.randbytes(n)
    return b + rng.randbytes(n - len(b)) if len(b) < n else b[:n]


def bytestr(rng, n=None, big=0.02):
    if n is None:
        n = length(rng, big)
    return special_bytes(rng, n) if rng.random() < .6 else rng.randbytes(n)


ALPHA = ['abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', '0123456789', ' \t\n\r', '\x00', '.,;:-_+/\\\'"!?@#$%^&*()[]{}<>|~`=',
         'äöüßéèêçñÅ', 'ΑΒΓαβγ', 'АБВабв', '日本語漢字', '한국어', '😀𐀀💰🔑', 'e\u0301a\u030aA\u030a\u212b\u0344o\u0308', '\u1e9b\u0323\ufb01\u2460\uff21',
         '\u0000\u0080\u07ff\u0800\uffff\ufeff', '\u200b\u00a0\u3000\u2028', '٣४５']


def text(rng, n=None, surrogates=False):
    """Unicode text; every character encodable in UTF-8."""
    if n is None:
        n = length(rng, 0.01)
    k = rng.randrange(8)
    if k == 0:
        return ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(n))
    if k == 1:
        pool = ''.join(rng.choice('0123456789abcdef') for _ in range(n))
    elif k == 2:
        strs = code_dictionary()[1]
        pool = rng.choice(strs) if strs else ''
        pool = (pool + ''.join(rng.choice(ALPHA[rng.randrange(3)]) for _ in range(n)))[:n]
    elif k == 3:
        a = rng.choice(ALPHA)
        pool = ''.join(rng.choice(a) for _ in range(n))
    elif k == 4:
        pool = ''.join(rng.choice(ALPHA[0] + ' ') for _ in range(n))
    else:
        pool = ''.join(rng.choice(rng.choice(ALPHA)) for _ in range(n))
    return pool


DECOR = ['0x', '0X', 'x', 'X', 'h', 'H', 'L', 'l', 'u', 'b', '#', '$', '@', '!', '.', ',', ';', ':', '-', '+', '_', '=', '==', '~', '/', '\\', '%', '*', '?', '&', '|', '"', "'", '`', '(', ')', '[', ']', '{', '}',
         '<', '>', '00', '0', '1', 'f', 'A', 'neo:', 'NEO:', '0x0x', 'hex:', 'wif:', 'address:', '\\x', '%20', '&#', 'é', 'Á', '\u200d', '\u00ad', '\u200f', '\u202e', '\ufeff', '\x1a', '\x7f', '\ud800', 'A' * 34, '0' * 40] + BLANKS
TWINS = {'A': 'А\u0391Ａ', 'a': 'аａ', 'e': 'еｅ', 'o': 'оο', 'B': 'ВΒ', 'K': 'ΚК\u212a', '1': '１٠١l', '0': '０٠O', 'c': 'сｃ', 'x': 'хｘ×', 'f': 'ｆƒ', '6': '６б', 'P': 'РΡ', 'Y': 'ΥＹ', '2': '２²', '3': '３З³', 'i': 'іı', 's': 'ſѕ'}


def decorated(rng, s):
    """s with something added in front, behind, inside or in place of as many characters, or a character exchanged for a look-alike"""
    d = rng.choice(DECOR)
    e = {'(': ')', '[': ']', '{': '}', '<': '>'}.get(d, d)
    i = rng.randrange(len(s) + 1)
    k = rng.randrange(12)
    if k < 2:
        return d + s
    if k < 4:
        return s + d
    if k == 4:
        return d + s + e
    if k == 5:
        return s[:i] + d + s[i:]
    if k == 6:
        return (d + s[len(d):])[:len(s)]
    if k == 7:
        return (s[:max(0, len(s) - len(d))] + d)[-max(1, len(s)):]
    if k == 8:
        return s[:i] + d + s[i + len(d):]
    if k == 9:
        at = [j for j, c in enumerate(s) if c in TWINS]
        if not at:
            return s + d
        j = rng.choice(at)
        return s[:j] + rng.choice(TWINS[s[j]]) + s[j + 1:]
    if k == 10:
        n = rng.choice([2, 4, 5, 8, 10])
        return rng.choice([' ', '-', ':', '\n', '_', '\u200b', d]).join(s[j:j + n] for j in range(0, len(s), n))
    return rng.choice(["b'%s'", 'b"%s"', "'%s'", '"%s"', '<%s>', '%s\r\n', '%s ', ' %s', '\0%s', '%s\0', '%s\0\0', '(%s)', '0x%s', '%s0x', 'x%s', '0x0x%s', '0X%s', '%sh', '%s%%00', '%s#', '%s,', '%s;', '%s=']) % s


def nfc_variants(rng, s):
    """Texts canonically equivalent to s (same NFC form) in other forms."""
    out = {unicodedata.normalize(f, s) for f in ('NFC', 'NFD')}
    # partially decomposed
    out.add(''.join(unicodedata.normalize('NFD', c) if rng.random() < .5 else c for c in s))
    nfc = unicodedata.normalize('NFC', s)
    return sorted(t for t in out if unicodedata.normalize('NFC', t) == nfc)


def mutate_text(rng, s, alphabet):
    """One small edit of s."""
    if not s:
        return rng.choice(alphabet)
    k = rng.randrange(8)
    i = rng.randrange(len(s))
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + rng.choice(alphabet) + s[i:]
    if k == 2 and len(s) > 1:
        i = rng.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if k == 3:
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if k == 4:
        return s[:i] + s[i] + s[i:]
    if k == 5:
        j = rng.randrange(i, len(s))
        return s[:i] + s[j + 1:]
    return s[:i] + rng.choice(alphabet) + s[i + 1:]


def amount(rng):
    """the units of a 64-bit amount: whole coins and their neighbours as well"""
    d = 10 ** 8
    k = rng.randrange(6)
    if k == 0:
        v = sint(rng, 64) // d * d + rng.choice([-2, -1, 0, 1, 2])
    elif k == 1:
        v = sint(rng, rng.choice([32, 54, 60, 62, 64])) * 10 ** rng.randrange(8)
    elif k == 2:
        v = sint(rng, 64) // 10 ** 6 * 10 ** 6 + rng.choice([-1, 1])
    else:
        v = sint(rng, 64)
    return max(-(1 << 63), min((1 << 63) - 1, v))


ALIKE = {'o': '0O', '1': 'lI|', 'i': 'lI!', 'L': 'l1', 'Q': 'O', 'D': '0O', '0': 'oO', 'S': '5$', 'Z': '2', 'B': '8', 'e': '\u0435', 'a': '\u0430', 'A': '\u0410', 'c': '\u0441', 'x': '\u0445', '5': '\uff15', '2': '\u0662', '9': '\u0969', 'b': '\uff42', 'd': 'D', 'f': '\uff46'}


def confused(rng, s):
    """characters mistaken for others that look like them; None if there is nothing to mistake"""
    at = [i for i, c in enumerate(s) if c in ALIKE]
    if not at:
        return None
    i = rng.choice(at)
    new = rng.choice(ALIKE[s[i]])
    return s.replace(s[i], new) if rng.random() < .5 else s[:i] + new + s[i + 1:]


def mutate_bytes(rng, b):
    b = bytearray(b)
    if not b:
        return bytes([rng.getrandbits(8)])
    k = rng.randrange(7)
    i = rng.randrange(len(b))
    if k == 0:
        del b[i]
    elif k == 1:
        b.insert(i, rng.getrandbits(8))
    elif k == 2:
        b[i] ^= 1 << rng.randrange(8)
    elif k == 3:
        j = rng.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    elif k == 4:
        b += rng.randbytes(rng.randrange(1, 4))
    elif k == 5:
        b[i] = rng.choice([0, 1, 0xff, 0x7f, 0x80])
    else:
        b[i] = rng.getrandbits(8)
    return bytes(b)

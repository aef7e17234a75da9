from vlib import kdf
kdf.install()
from vlib.core import Family  # noqa: E402
from Crypto.Cipher import AES  # noqa: E402
from vlib import gen, keys, nep2, oracle  # noqa: E402
from neocore.KeyPair import KeyPair  # noqa: E402

PROP = 'K04'
B58 = oracle.B58


def wrong(ctx, k, pw, n, real=False):
    rng = ctx.rng
    t = oracle.nep2_encrypt(k, pw) if real else oracle.nep2_encrypt(k, pw, kdf.cheap)
    for _ in range(n):
        w, how = nep2.wrong_passphrase(rng, pw)
        nep2.refuses(ctx, KeyPair, t, w, 'wrong passphrase, right one is %r' % pw, real, 'wrong-passphrase-refused')
        ctx.seen('how', how, len(w) // 8)
    ctx.seen(*nep2.kind(pw))


def passphrases(ctx):
    wrong(ctx, keys.key(ctx.rng), nep2.passphrase(ctx.rng), 3)


def after_success(ctx):
    """a wrong passphrase is refused also right after the right one was used, and the other way round"""
    rng = ctx.rng
    k, pw = keys.key(rng), nep2.passphrase(rng)
    kp = ctx.returned('key-accepted', ctx.call('KeyPair', KeyPair, k))
    t = nep2.export(ctx, kp, k, pw)
    for _ in range(2):
        w, how = nep2.wrong_passphrase(rng, pw)
        nep2.refuses(ctx, KeyPair, t, w, 'right one is %r' % pw, monitor='wrong-passphrase-refused')
        nep2.gives(ctx, KeyPair, t, pw, k, 'right passphrase')
        nep2.refuses(ctx, KeyPair, t, w, 'right one is %r' % pw, monitor='wrong-passphrase-refused')
        ctx.seen('after', how)


def damaged_text(ctx):
    rng = ctx.rng
    k, pw = keys.key(rng), nep2.passphrase(rng)
    t = oracle.nep2_encrypt(k, pw, kdf.cheap)
    for _ in range(12):
        d = t
        for _ in range(rng.choice([1, 1, 2, 3])):
            d = gen.mutate_text(rng, d, rng.choice([B58, B58 + '0OIl', ' \n0é\x00']))
        if d != t:
            nep2.refuses(ctx, KeyPair, d, pw, 'damaged', monitor='damage-refused')
            ctx.seen(len(d), sum(a != b for a, b in zip(d, t)))
    for _ in range(4):
        d = gen.decorated(rng, t)
        if d != t:
            nep2.refuses(ctx, KeyPair, d, pw, 'decorated', monitor='damage-refused')
    i = rng.randrange(58)
    for d in (t[:i] + rng.choice(B58) + t[i + 1:], t.lower(), t.upper(), t[::-1], t + '1', '1' + t, t[:-1], t[1:], '', ' ' + t[1:], t[:-1] + ' '):
        if d != t:
            nep2.refuses(ctx, KeyPair, d, pw, 'damaged', monitor='damage-refused')


def structure(ctx):
    """right checksum over a payload of another length, prefix, address hash or ciphertext"""
    rng = ctx.rng
    k, pw = keys.key(rng), nep2.passphrase(rng)
    p = bytearray(oracle.b58check_decode(oracle.nep2_encrypt(k, pw, kdf.cheap)))
    i = ctx.index % 39
    q = bytearray(p)
    q[i] ^= 1 << rng.randrange(8)
    nep2.refuses(ctx, KeyPair, oracle.b58check(bytes(q)), pw, 'payload byte %d' % i, monitor='damage-refused')
    q = bytearray(p)
    q[i] = rng.getrandbits(8)
    if q != p:
        nep2.refuses(ctx, KeyPair, oracle.b58check(bytes(q)), pw, 'payload byte %d' % i, monitor='damage-refused')
    for q in (p[:-1], p + b'\0', p[1:], b'\x01' + p, p[:7] + p[23:], p[:3] + p[7:], p[:7] + p[23:] + p[7:23], p[:2] + b'\xc0' + p[3:], p[:2] + b'\xe4' + p[3:],
              b'\x01\x43' + p[2:], b'\x02' + p[1:], bytes(39), p[:7] + bytes(32), p[:3] + bytes(4) + p[7:], p + rng.randbytes(4)):
        nep2.refuses(ctx, KeyPair, oracle.b58check(bytes(q)), pw, 'payload', monitor='damage-refused')
        ctx.seen(len(q), bytes(q[:3]))
    c = oracle.hash256(bytes(p))
    bit = bytearray(c[:4])
    j = rng.randrange(32)
    bit[j // 8] ^= 1 << (j % 8)
    for x in (bytes(bit), bytes(4), c[-4:], oracle.sha256(p)[:4], c[:4][::-1]):
        nep2.refuses(ctx, KeyPair, oracle.b58encode(bytes(p) + x), pw, 'checksum', monitor='damage-refused')
    ctx.seen('byte', i, j)


def make(key, ah, pw, prefix=b'\x01\x42\xe0'):
    """a well-formed text that decrypts to key under pw, with any address hash"""
    d = kdf.cheap(nep2.nfc(pw), ah)
    x = bytes(a ^ b for a, b in zip(key, d[:32]))
    return oracle.b58check(prefix + ah + AES.new(d[32:], AES.MODE_ECB).encrypt(x))


def mismatch(ctx):
    """the passphrase is right but the key does not match its address hash, or is no key"""
    rng = ctx.rng
    k, pw = keys.key(rng), nep2.passphrase(rng)
    addr = oracle.key_address(k)
    ah = oracle.hash256(addr.encode())[:4]
    pt = oracle.pub_of(k)
    b = rng.randrange(32)
    one = bytearray(ah)
    one[b // 8] ^= 1 << (b % 8)
    unc = oracle.address(oracle.hash160(b'\x04' + oracle.b32(pt[0]) + oracle.b32(pt[1])))
    other = oracle.key_address(oracle.b32(keys.N - int.from_bytes(k, 'big')))
    hashes = {'one bit': bytes(one), 'zero': bytes(4), 'single sha': oracle.sha256(addr.encode())[:4], 'script hash': oracle.address_decode(addr)[:4],
              'uncompressed': oracle.hash256(unc.encode())[:4], 'mirror key': oracle.hash256(other.encode())[:4], 'reversed': ah[::-1],
              'last bytes': oracle.hash256(addr.encode())[-4:], 'first byte only': ah[:1] + rng.randbytes(3), 'three bytes': ah[:3] + bytes([ah[3] ^ rng.randrange(1, 256)]),
              'last three': bytes([ah[0] ^ rng.randrange(1, 256)]) + ah[1:], 'lower case address': oracle.hash256(addr.lower().encode())[:4],
              'pubkey': oracle.hash256(oracle.compress(pt))[:4], 'random': rng.randbytes(4)}
    for how, h in hashes.items():
        if h != ah:
            nep2.refuses(ctx, KeyPair, make(k, h, pw), pw, 'address hash: ' + how, monitor='mismatch-refused')
            ctx.seen(how, h[:1] == ah[:1])
    for v in (0, keys.N, keys.N + 1, (1 << 256) - 1, keys.N + rng.getrandbits(200), oracle.R1.p):
        for h in (ah, rng.randbytes(4), oracle.hash256(oracle.key_address(oracle.b32(v % keys.N or 1)).encode())[:4]):
            nep2.refuses(ctx, KeyPair, make(oracle.b32(v), h, pw), pw, 'no private key', monitor='mismatch-refused')
    nep2.gives(ctx, KeyPair, make(k, ah, pw), pw, k, 'matching')


def nothing_leaks(ctx):
    """the refusal itself does not carry the decrypted bytes"""
    rng = ctx.rng
    k, pw = keys.key(rng), nep2.passphrase(rng)
    t = oracle.nep2_encrypt(k, pw, kdf.cheap)
    w, how = nep2.wrong_passphrase(rng, pw)
    out, want = nep2.decrypt(ctx, KeyPair, t, w)
    if not want:
        ctx.refused('wrong-passphrase-refused', out, repr(w))
        d = kdf.cheap(nep2.nfc(w), oracle.b58check_decode(t)[3:7])
        x = bytes(a ^ b for a, b in zip(AES.new(d[32:], AES.MODE_ECB).decrypt(oracle.b58check_decode(t)[7:]), d[:32]))
        ctx.check('no-key-in-error', not any(isinstance(a, (bytes, bytearray)) and bytes(a) == x or isinstance(a, str) and x.hex() in a.lower() for a in out.exc.args), out)
        ctx.seen(how, type(out.exc).__name__)


SHORT = ['', '\u0958', '\u0344', '\ufb2c', '\U0001d15e', 'a', ' ', '\n', '\x00', 'é', '日', '😀', '0', '\u0301']


def short_passphrase(ctx):
    rng = ctx.rng
    k = keys.key(rng)
    kp = ctx.returned('key-accepted', ctx.call('KeyPair', KeyPair, k))
    pw = SHORT[ctx.index % len(SHORT)] if ctx.index < 40 else chr(rng.choice([rng.randrange(0xd800), rng.randrange(0xe000, 0x110000)]))
    with kdf.standin():
        ctx.refused('short-passphrase-refused', ctx.call('ExportNEP2', kp.ExportNEP2, pw), repr(pw))
        ctx.returned('two-characters-accepted', ctx.call('ExportNEP2', kp.ExportNEP2, rng.choice(['ab', 'aa', '  ', 'e\u0301', 'a\u030a', '\u0958a', '\u1100\u1161', '\U0001f4a9\U0001f4a9'])))
    ctx.seen(len(pw), ord(pw[0]) >> 6 if pw else None)


def lengths(ctx):
    rng = ctx.rng
    n = ctx.index % 130
    pw = nep2.passphrase(rng)
    for d in ('6' * n, ''.join(rng.choice(B58) for _ in range(n)), gen.text(rng, n), gen.text(rng, 58), '6PY' + ''.join(rng.choice(B58) for _ in range(55)),
              (oracle.nep2_encrypt(keys.key(rng), pw, kdf.cheap) * 3)[:n] if n != 58 else 'x', oracle.wif(keys.key(rng)), oracle.b58check(b'\x01\x42\xe0' + rng.randbytes(n))):
        nep2.refuses(ctx, KeyPair, d, pw, 'length', monitor='damage-refused')
        ctx.seen(len(d), d[:1])


def real_scrypt(ctx):
    rng = ctx.rng
    pw = nep2.passphrase(rng)
    wrong(ctx, keys.key(rng), pw, 2, real=True)
    k = keys.key(rng)
    p = bytearray(oracle.b58check_decode(oracle.nep2_encrypt(k, pw)))
    p[rng.randrange(3, 39)] ^= 1 << rng.randrange(8)
    nep2.refuses(ctx, KeyPair, oracle.b58check(bytes(p)), pw, 'payload', True, 'damage-refused')
    ctx.seen('real')


FAMILIES = [Family('passphrases', 1500, 60000, passphrases), Family('after_success', 500, 20000, after_success), Family('damaged_text', 1200, 40000, damaged_text),
            Family('structure', 390, 7800, structure), Family('mismatch', 250, 8000, mismatch), Family('nothing_leaks', 400, 5000, nothing_leaks),
            Family('short_passphrase', 400, 4000, short_passphrase), Family('lengths', 650, 6500, lengths), Family('real_scrypt', 16, 800, real_scrypt)]

import hashlib
from vlib.core import Family
from vlib import gen, keys, oracle
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography import Helper
from neocore.UInt160 import UInt160

PROP = 'H01'


def val(ctx, name, fn, *a, **kw):
    return ctx.returned('hash-given', ctx.call(name, fn, *a, **kw))


def hashes(ctx, m):
    h160, h256 = oracle.hash160(m), oracle.hash256(m)
    for data in (m, bytearray(m)):
        ctx.equal('hash160', val(ctx, 'Crypto.Hash160', Crypto.Hash160, data), h160.hex())
        ctx.equal('hash160', val(ctx, 'Crypto.Hash160Bytes', Crypto.Hash160Bytes, data), h160)
        ctx.equal('hash160', val(ctx, 'Default.Hash160', Crypto.Default().Hash160, data), h160)
        ctx.equal('hash160', val(ctx, 'bin_hash160', Helper.bin_hash160, data), h160.hex())
        ctx.equal('hash160', val(ctx, 'bin_hash160Bytes', Helper.bin_hash160Bytes, data), h160)
        ctx.equal('hash160', val(ctx, 'redeem_to_scripthash', Helper.redeem_to_scripthash, data), h160)
        ctx.equal('hash256', val(ctx, 'Crypto.Hash256', Crypto.Hash256, data), h256)
        ctx.equal('hash256', val(ctx, 'Default.Hash256', Crypto.Default().Hash256, data), h256)
        ctx.equal('hash256', val(ctx, 'bin_dbl_sha256', Helper.bin_dbl_sha256, data), h256)
        ctx.equal('hash256', val(ctx, 'double_sha256', Helper.double_sha256, data), h256.hex())
        r = val(ctx, 'ToScriptHash(raw)', Crypto.ToScriptHash, data, unhex=False)
        ctx.check('script-hash', type(r) is UInt160 and bytes(r.Data) == h160, 'raw', m, r)
    ctx.check('argument-unchanged', bytes(data) == m)
    hexes = [m.hex(), m.hex().encode(), m.hex().upper(), bytearray(m.hex().encode())]
    for h in hexes:
        if len(h) == 0 and isinstance(h, str):
            continue                # empty text: nothing to decode, and hashes take bytes
        r = val(ctx, 'ToScriptHash(hex)', Crypto.ToScriptHash, h)
        ctx.check('script-hash', type(r) is UInt160 and bytes(r.Data) == h160, 'hex', m, r)
        r = val(ctx, 'ToScriptHash(hex)', Crypto.ToScriptHash, h, unhex=True)
        ctx.check('script-hash', bytes(r.Data) == h160, 'hex', m, r)


def messages(ctx):
    for _ in range(2):
        m = gen.bytestr(ctx.rng)
        hashes(ctx, m)
        ctx.seen(len(m), m[:1], m[-1:])


def lengths(ctx):
    n = ctx.index if ctx.index < 600 else 600 + (ctx.index - 600) * 997
    if ctx.index >= 690:
        n = gen.HUGE_LENGTHS[ctx.index % 13]
    hashes(ctx, ctx.rng.randbytes(n))
    ctx.seen(n)


def scripts(ctx):
    """redeem script and public-key hash helpers, for any 33 bytes of key"""
    rng = ctx.rng
    for _ in range(3):
        k = gen.bytestr(rng, 33)
        if rng.random() < .7:
            k = bytes([rng.choice([2, 3])]) + k[1:]
        for h in (k.hex().encode(), k.hex().upper().encode()):
            redeem = b'\x21' + k + b'\xac'
            ctx.equal('redeem-script', val(ctx, 'pubkey_to_redeem', Helper.pubkey_to_redeem, h), redeem)
            ctx.equal('script-hash', val(ctx, 'redeem_to_scripthash', Helper.redeem_to_scripthash, redeem), oracle.hash160(redeem))
            ctx.equal('script-hash', val(ctx, 'pubkey_to_pubhash', Helper.pubkey_to_pubhash, h), oracle.hash160(redeem))
        r = val(ctx, 'ToScriptHash(hex)', Crypto.ToScriptHash, redeem.hex().encode())
        ctx.equal('script-hash', bytes(r.Data), oracle.hash160(redeem))
        ctx.seen(k[0], k[1] >> 3, k[32] >> 3)
    i = CryptoInstance()
    m = gen.bytestr(rng)
    ctx.equal('hash160', val(ctx, 'CryptoInstance.Hash160', i.Hash160, m), oracle.hash160(m))
    ctx.equal('hash256', val(ctx, 'CryptoInstance.Hash256', i.Hash256, m), oracle.hash256(m))


OPS = [0x00, 0x01, 0x14, 0x20, 0x21, 0x23, 0x4c, 0x51, 0x52, 0x53, 0x60, 0x61, 0x66, 0x67, 0x69, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xab, 0xac, 0xad, 0xae, 0xc1, 0xf0, 0xff]


def script_like(ctx):
    """scripts of many shapes and of any length: no shape is treated specially"""
    rng = ctx.rng
    k = rng.randrange(6)
    key = lambda: bytes([33, rng.choice([2, 3])]) + rng.randbytes(32)  # noqa: E731
    if k == 0:
        n = rng.randrange(1, 17)
        m = bytes([0x50 + rng.randrange(1, n + 1)]) + b''.join(key() for _ in range(n)) + bytes([0x50 + n, 0xae])
    elif k == 1:
        m = b''.join(key() + b'\xac' for _ in range(rng.randrange(1, 5)))
    elif k == 2:
        m = b'\x21' + rng.randbytes(rng.choice([0, 1, 31, 32, 34, 35, 64, 65, 66, rng.randrange(200)])) + b'\xac'
    elif k == 3:
        m = bytes([rng.choice(OPS)]) + gen.bytestr(rng) + bytes([rng.choice(OPS)])
    elif k == 4:
        m = bytes(rng.choice(OPS) for _ in range(rng.randrange(1, 90)))
    else:
        m = b'\x76\xa9\x14' + rng.randbytes(20) + b'\x88\xac' + rng.choice([b'', b'\x66', bytes([rng.choice(OPS)])])
    hashes(ctx, m)
    ctx.seen(k, len(m), m[:1], m[-1:])


def hex_looking(ctx):
    """raw scripts all of whose bytes are hex characters: not decoded unless asked"""
    rng = ctx.rng
    for _ in range(3):
        n = rng.choice([2, 4, 20, 40, 42, 64, 66, 68, 70, 128, 130, 132, 134, rng.randrange(1, 200)])
        digits = rng.choice([b'0123456789abcdef', b'0123456789ABCDEF', b'0123456789', b'0', b'2103ac'])
        m = bytes(rng.choice(digits) for _ in range(n))
        if rng.random() < .5:
            m = (rng.choice([b'02', b'03', b'04', b'21', b'2102', b'2103', b'5121', b'0x']) + m)[:n]
        if n >= 2 and rng.random() < .3:
            m = m[:-2] + b'ac'
        hashes(ctx, m)
        for data in (m, bytearray(m), memoryview(m)):
            r = val(ctx, 'ToScriptHash(raw)', Crypto.ToScriptHash, data, False)
            ctx.check('script-hash', bytes(r.Data) == oracle.hash160(m), 'raw', m, r)
        ctx.seen('hexlike', n, m[:2])


MINED = [(k, mark, m) for k in ('sha256', 'hash256', 'hash160') for mark, m in keys.mined(k)]


def mined(ctx):
    """messages whose hashes begin or end with zero bytes, ff bytes or look like hex text"""
    kind, mark, m = MINED[ctx.index % len(MINED)]
    hashes(ctx, m)
    ctx.seen(kind, mark)


FAMILIES = [Family('mined', len(MINED), len(MINED), mined), Family('hex_looking', 1500, 30000, hex_looking), Family('script_like', 2000, 40000, script_like), Family('messages', 10500, 80000, messages), Family('lengths', 700, 900, lengths), Family('scripts', 4500, 30000, scripts)]

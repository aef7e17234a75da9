"""
Calls that can be recorded in any order, process or thread: each job is a name and JSON arguments,
executed on the real code and judged by the references. The answer is a text; any exception
gives 'refused'. A thunk can be called again and again and has to give the same answer each time.
Mutable results are overwritten after they have been recorded, so that a result that is shared
with later calls shows.
"""
import hashlib
import io
import json
import random
from fractions import Fraction
from vlib import kdf
kdf.install()
from vlib import gen, keys, nep2, oracle, wire  # noqa: E402
from vlib.core import Outcome  # noqa: E402
from neocore.BigInteger import BigInteger  # noqa: E402
from neocore.bin import cli  # noqa: E402
from neocore.Cryptography import Helper  # noqa: E402
from neocore.Cryptography.Crypto import Crypto, CryptoInstance  # noqa: E402
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField  # noqa: E402
from neocore.Cryptography.MerkleTree import MerkleTree  # noqa: E402
from neocore.Fixed8 import Fixed8  # noqa: E402
from neocore.IO.BinaryReader import BinaryReader  # noqa: E402
from neocore.IO.BinaryWriter import BinaryWriter, convert_to_uint160, convert_to_uint256, swap32  # noqa: E402
from neocore.KeyPair import KeyPair  # noqa: E402
from neocore.UInt160 import UInt160  # noqa: E402
from neocore.UInt256 import UInt256  # noqa: E402

R1 = oracle.R1
H = bytes.fromhex
OPS = {}
CRYPTO, OTHER = [], []


class Null:
    """stands in for a case context where the stream operations want one"""

    @staticmethod
    def call(op, fn, *a, **k):
        try:
            return Outcome(op, fn(*a, **k))
        except Exception as e:
            return Outcome(op, exc=e)


def hx(v):
    """record a byte string, then overwrite it if it can be written to"""
    if isinstance(v, str):
        return 'str:' + v
    t = bytes(v).hex()
    if isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] ^= 0x5a
    return t


def job(name, weight, crypto=True):
    def deco(cls):
        OPS[name] = cls
        (CRYPTO if crypto else OTHER).extend([name] * weight)
        return cls
    return deco


def pt_text(p):
    return '%x %x' % (p.x.value, p.y.value)


@job('sign', 6)
class Sign:
    @staticmethod
    def gen(rng):
        return dict(k=keys.key(rng).hex(), m=gen.bytestr(rng, big=0).hex(), how=rng.randrange(3))

    @staticmethod
    def make(a):
        fn = [lambda: Crypto.Sign, lambda: Crypto.Default().Sign, lambda: CryptoInstance().Sign][a['how']]()
        return lambda: hx(fn(a['m'], a['k']))

    @staticmethod
    def want(a):
        # any valid signature; which one it is has to be the same every time
        e = int.from_bytes(hashlib.sha256(H(a['m'])).digest(), 'big')
        pub = oracle.pub_of(H(a['k']))

        def ok(res):
            try:
                b = H(res)
            except ValueError:
                return False
            return len(b) == 64 and R1.ecdsa_valid(e, int.from_bytes(b[:32], 'big'), int.from_bytes(b[32:], 'big'), pub)
        return ok


@job('verify', 3)
class Verify:
    @staticmethod
    def gen(rng):
        d, m = keys.scalar(rng), gen.bytestr(rng, big=0)
        r, s = R1.ecdsa_sign(int.from_bytes(hashlib.sha256(m).digest(), 'big'), d, rng.randrange(1, R1.n))
        pt = R1.mul_g(d)
        sig = bytearray(oracle.b32(r) + oracle.b32(s))
        bad = rng.random() < .4
        if bad:
            k = rng.randrange(3)
            if k == 0:
                sig[rng.randrange(64)] ^= 1 << rng.randrange(8)
            elif k == 1:
                m += b'\1'
            else:
                pt = R1.neg(pt)
        return dict(x='%x' % pt[0], y='%x' % pt[1], m=m.hex(), sig=bytes(sig).hex(), form=rng.randrange(3), how=rng.randrange(2))

    @staticmethod
    def make(a):
        pt = int(a['x'], 16), int(a['y'], 16)
        pub = [lambda: oracle.compress(pt), lambda: oracle.b32(pt[0]) + oracle.b32(pt[1]), lambda: ECDSA.secp256r1().Curve.point(*pt)][a['form']]()
        fn = [lambda: Crypto.VerifySignature, lambda: Crypto.Default().VerifySignature][a['how']]()
        return lambda: repr(fn(a['m'], bytearray(H(a['sig'])), pub))

    @staticmethod
    def want(a):
        sig = H(a['sig'])
        e = int.from_bytes(hashlib.sha256(H(a['m'])).digest(), 'big')
        return repr(R1.ecdsa_valid(e, int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'), (int(a['x'], 16), int(a['y'], 16))))


def kp_text(kp):
    return ' '.join([pt_text(kp.PublicKey), bytes(kp.PublicKeyHash.Data).hex(), bytes(kp.PrivateKey).hex(), kp.GetAddress(), kp.Export()])


@job('keypair', 6)
class Pair:
    @staticmethod
    def gen(rng):
        return dict(k=keys.key(rng).hex(), form=rng.choice([32, 32, 96, 104]))

    @staticmethod
    def make(a):
        k = H(a['k'])
        if a['form'] != 32:
            x, y = oracle.pub_of(k)
            k = bytes(a['form'] - 96) + oracle.b32(x) + oracle.b32(y) + k

        def fn():
            kp = KeyPair(k)
            t = kp_text(kp)
            hx(kp.PrivateKey)       # wiped after use
            return t
        return fn

    @staticmethod
    def want(a):
        k = H(a['k'])
        pt = oracle.pub_of(k)
        return ' '.join(['%x %x' % pt, oracle.hash160(oracle.compress(pt)).hex(), k.hex(), oracle.key_address(k), oracle.wif(k)])


@job('keypair-object', 4)
class PairObject(Pair):
    """the object is made once; only its methods are called again"""
    @staticmethod
    def make(a):
        kp = KeyPair(H(a['k']))
        return lambda: kp_text(kp)


@job('keypair-refused', 2)
class PairBad:
    @staticmethod
    def gen(rng):
        return dict(k=bytes(rng.choice([0, 1, 31, 32, 33, 64, 65, 97])).hex())

    @staticmethod
    def make(a):
        return lambda: kp_text(KeyPair(H(a['k'])))

    @staticmethod
    def want(a):
        return 'refused'


@job('wif-in', 3)
class WifIn:
    @staticmethod
    def gen(rng):
        t = oracle.wif(keys.key(rng))
        r = rng.random()
        if r < .3:
            t = gen.mutate_text(rng, t, oracle.B58)
        elif r < .5:
            # a good checksum over something else
            t = oracle.b58check(b'\x80' + keys.key(rng) + bytes([rng.choice([0, 2, 255])])) if r < .4 else oracle.b58check(bytes([rng.choice([0x81, 0x7f, 0xef])]) + keys.key(rng) + b'\1')
        return dict(t=t)

    @staticmethod
    def make(a):
        return lambda: hx(KeyPair.PrivateKeyFromWIF(a['t']))

    @staticmethod
    def want(a):
        k = oracle.wif_decode(a['t'])
        return 'refused' if k is None or len(a['t']) != 52 else k.hex()


@job('nep2-out', 2)
class Nep2Out:
    @staticmethod
    def gen(rng):
        return dict(k=keys.key(rng).hex(), pw=nep2.passphrase(rng))

    @staticmethod
    def make(a):
        kp = KeyPair(H(a['k']))
        return lambda: kp.ExportNEP2(a['pw'])

    @staticmethod
    def want(a):
        w = oracle.nep2_encrypt(H(a['k']), a['pw'], kdf.cheap)
        return lambda res: res == w or (len(res) == 58 and res == oracle.nep2_encrypt(H(a['k']), a['pw']))


@job('nep2-in', 2)
class Nep2In:
    @staticmethod
    def gen(rng):
        k, pw = keys.key(rng), nep2.passphrase(rng)
        t = oracle.nep2_encrypt(k, pw, kdf.cheap)
        r = rng.random()
        if r < .2:
            pw, _ = nep2.wrong_passphrase(rng, pw)
        elif r < .4:
            t = gen.mutate_text(rng, t, oracle.B58)
        return dict(t=t, pw=pw)

    @staticmethod
    def make(a):
        return lambda: hx(KeyPair.PrivateKeyFromNEP2(a['t'], a['pw']))

    @staticmethod
    def want(a):
        k = oracle.nep2_decrypt(a['t'], a['pw'], kdf.cheap) if len(a['t']) == 58 else None
        return 'refused' if k is None else k.hex()


@job('hash', 4)
class Hash:
    @staticmethod
    def gen(rng):
        return dict(m=gen.bytestr(rng).hex(), how=rng.randrange(9))

    @staticmethod
    def make(a):
        m, how = H(a['m']), a['how']
        d = Crypto.Default() if how in (3, 4) else None
        fn = [lambda: Crypto.Hash160(m), lambda: Crypto.Hash160Bytes(m).hex(), lambda: Crypto.Hash256(m).hex(), lambda: d.Hash160(m).hex(), lambda: d.Hash256(m).hex(),
              lambda: Helper.bin_dbl_sha256(m).hex(), lambda: Helper.bin_hash160Bytes(m).hex(), lambda: Helper.double_sha256(m), lambda: hx(Crypto.ToScriptHash(m, unhex=False).ToArray())][how]
        return lambda: fn()

    @staticmethod
    def want(a):
        m = H(a['m'])
        return oracle.hash256(m).hex() if a['how'] in (2, 4, 5, 7) else oracle.hash160(m).hex()


@job('script-hash', 2)
class ScriptHash:
    @staticmethod
    def gen(rng):
        return dict(m=(gen.bytestr(rng) + b'xx').hex())

    @staticmethod
    def make(a):
        return lambda: hx(Crypto.ToScriptHash(a['m']).ToArray())

    @staticmethod
    def want(a):
        return oracle.hash160(H(a['m'])).hex()


@job('address-out', 3)
class AddressOut:
    @staticmethod
    def gen(rng):
        return dict(h=wire.nonhex(rng, 20).hex(), how=rng.randrange(3))

    @staticmethod
    def make(a):
        h = H(a['h'])
        u = UInt160(data=h)
        fn = [lambda: Crypto.ToAddress(u), lambda: Helper.scripthash_to_address(h), lambda: cli.scripthash_to_address('0x' + h[::-1].hex())][a['how']]
        return lambda: fn()

    @staticmethod
    def want(a):
        return oracle.address(H(a['h']))


_F = []


def _foreign():
    """34 characters starting with A that decode with a good checksum to another version byte"""
    if not _F:
        r = random.Random(7)
        while len(_F) < 12:
            for v in (b'\x16', b'\x18'):
                t = oracle.b58check(v + r.choice([b'\xff' * 2, b'\0' * 2]) + r.randbytes(18))
                if len(t) == 34 and t[0] == 'A':
                    _F.append(t)
    return _F


@job('address-in', 3)
class AddressIn:
    @staticmethod
    def gen(rng):
        t = oracle.address(gen.special_bytes(rng, 20))
        r = rng.random()
        if r < .3:
            t = gen.mutate_text(rng, t, oracle.B58)
        elif r < .5:
            # a good checksum over something else, some of it in 34 characters starting with A
            t = oracle.b58check(rng.choice([b'\x16', b'\x18', b'\0', b'\x17\x17', b'\x17' * 3]) + gen.special_bytes(rng, 20)) if r < .4 else rng.choice(_foreign())
        return dict(t=t)

    @staticmethod
    def make(a):
        from neocore.Utils import isValidPublicAddress

        def fn():
            ok = isValidPublicAddress(a['t'])
            try:
                h = cli.address_to_scripthash(a['t']).hex()
            except cli.ConversionError:
                h = 'none'
            return '%s %s' % (ok, h)
        return fn

    @staticmethod
    def want(a):
        h = oracle.address_decode(a['t'])
        return 'False none' if h is None else 'True ' + h.hex()


@job('redeem', 2)
class Redeem:
    @staticmethod
    def gen(rng):
        return dict(k=keys.key(rng).hex())

    @staticmethod
    def make(a):
        pub = oracle.compress(oracle.pub_of(H(a['k']))).hex().encode()

        def fn():
            r = Helper.pubkey_to_redeem(pub)
            h = Helper.redeem_to_scripthash(r)
            return ' '.join([bytes(r).hex(), bytes(h).hex(), Helper.scripthash_to_address(h), bytes(Helper.pubkey_to_pubhash(pub)).hex()])
        return fn

    @staticmethod
    def want(a):
        s = oracle.key_script(oracle.pub_of(H(a['k'])))
        return ' '.join([s.hex(), oracle.hash160(s).hex(), oracle.address(oracle.hash160(s)), oracle.hash160(s).hex()])


@job('point', 4)
class Point:
    """decoding and encoding a public key"""
    @staticmethod
    def gen(rng):
        c = oracle.compress(oracle.pub_of(keys.key(rng)))
        if rng.random() < .3:
            c = c[:1] + gen.mutate_bytes(rng, c[1:])
        return dict(c=c.hex(), how=rng.randrange(3))

    @staticmethod
    def make(a):
        b = H(a['c'])
        fn = [lambda: ECDSA.decode_secp256r1(a['c']).G, lambda: ECDSA.decode_secp256r1(b, unhex=False).G, lambda: ECDSA.FromBytes_Secp256r1(b)][a['how']]

        def go():
            p = fn()
            if p is None:
                return 'refused'
            p = getattr(p, 'G', p)
            return ' '.join([pt_text(p), p.encode_point(True).decode(), p.encode_point(False).decode()])
        return go

    @staticmethod
    def want(a):
        b = H(a['c'])
        pt = R1.lift_x(int.from_bytes(b[1:], 'big'), b[0] & 1) if len(b) == 33 and b[0] in (2, 3) else None
        if pt is None:
            return 'refused'
        return ' '.join(['%x %x' % pt, oracle.compress(pt).hex(), '04' + (oracle.b32(pt[0]) + oracle.b32(pt[1])).hex()])


@job('multiply', 1)
class Multiply:
    @staticmethod
    def gen(rng):
        return dict(k=rng.getrandbits(rng.choice([4, 12, 24])) + 1, d=rng.randrange(1, R1.n), k1=rng.random() < .3)

    @staticmethod
    def make(a):
        C = oracle.K1 if a['k1'] else R1
        e = (ECDSA.secp256k1 if a['k1'] else ECDSA.secp256r1)()
        p = e.Curve.point(*C.mul_g(a['d']))

        def fn():
            q = p * a['k']
            return ' '.join([pt_text(q), pt_text(q + p), str(q < p), pt_text(-p), pt_text(q - p), str(p == q), p.encode_point(True).decode()])
        return fn

    @staticmethod
    def want(a):
        C = oracle.K1 if a['k1'] else R1
        p = C.mul_g(a['d'])
        q = C.mul(a['k'], p)
        s = C.add(q, p)
        return '%x %x %x %x %s ' % (q + s + (q < p,)) + '%x %x %x %x %s' % (C.neg(p) + (C.add(q, C.neg(p)) or (0, 0)) + (p == q,)) + ' ' + oracle.compress(p).hex()


def _tiny():
    """a curve of prime order over a small field, with all multiples of its base point"""
    C = oracle.Curve('tiny', 103, 0, 0, 0, 0, 0)
    while True:
        C.b += 1
        pts = [(x, y) for x in range(C.p) for y in range(C.p) if (y * y - x ** 3 - C.b) % C.p == 0]
        n = len(pts) + 1
        if all(n % d for d in range(2, n)):
            C.n, C.g, C.table = n, pts[0], [None]
            while len(C.table) < n:
                C.table.append(C.add(C.table[-1], C.g))
            return C


_TINY = _tiny()


@job('ecdsa', 3)
class TinyEcdsa:
    """field elements, and signatures in a tiny group"""
    @staticmethod
    def gen(rng):
        C = _TINY
        while True:
            a = dict(d=rng.randrange(1, C.n), s=rng.randrange(1, C.n), m=rng.randrange(1, 3 * C.n), q=rng.choice([C.p, R1.p, R1.n, oracle.K1.p]))
            r = C.table[a['s']][0] % C.n
            if r and (a['m'] + a['d'] * r) % C.n and C.table[a['s']][0] < C.n:
                break
        return dict(a, u=str(rng.randrange(1, a['q'])), v=str(rng.randrange(1, a['q'])))

    @staticmethod
    def make(a):
        C = _TINY
        ec = EllipticCurve(FiniteField(C.p), C.a, C.b)
        e = ECDSA(ec, ec.point(*C.g), C.n)
        pub = ec.point(*C.table[a['d']])
        F = FiniteField(a['q'])
        u, v = F.value(int(a['u'])), F.value(int(a['v']))

        def fn():
            r, s = e.sign(a['m'], a['d'], a['s'])
            back = e.findpk(a['m'], r, s, C.table[a['s']][1] & 1)
            return ' '.join(map(str, [r.value, s.value, e.verify(a['m'], pub, r, s), e.verify(a['m'] + 1, pub, r, s), pt_text(back), (u + v).value, (u - v).value, (u * v).value, (u / v).value, (-u).value, (u ** 5).value,
                                      u == v, e.crack1(r, s, a['m'], a['s']).value]))
        return fn

    @staticmethod
    def want(a):
        C = _TINY
        n, q, u, v, m, d = C.n, a['q'], int(a['u']), int(a['v']), a['m'], a['d']
        r = C.table[a['s']][0] % n
        s = (m + d * r) * pow(a['s'], -1, n) % n
        R = C.table[(m + 1 + d * r) * pow(s, -1, n) % n]
        return ' '.join(map(str, [r, s, True, (R or (0, 0))[0] % n == r, '%x %x' % C.table[d], (u + v) % q, (u - v) % q, u * v % q, u * pow(v, -1, q) % q, -u % q, pow(u, 5, q), u == v, d]))


@job('wallet', 1)
class Wallet:
    @staticmethod
    def gen(rng):
        return dict(i=rng.getrandbits(30))

    fresh = True                # a different answer every time

    @staticmethod
    def make(a):
        return lambda: json.dumps(cli.create_wallet())

    @staticmethod
    def want(a):
        def ok(res):
            try:
                w = json.loads(res)
            except ValueError:
                return False
            k = oracle.wif_decode(w['private_key'])
            return k is not None and w['address'] == oracle.key_address(k)
        return ok


# --- the rest of the library

@job('merkle', 2, crypto=False)
class Merkle:
    @staticmethod
    def gen(rng):
        n = rng.randrange(1, 14)
        return dict(n=n, seed=rng.getrandbits(40), flags=[rng.random() < .4 for _ in range(n)])

    @staticmethod
    def leaves(a):
        r = random.Random(a['seed'])
        return [r.randbytes(32) for _ in range(a['n'])]

    @staticmethod
    def make(a):
        ls = [UInt256(data=b) for b in Merkle.leaves(a)]

        def fn():
            t = MerkleTree(ls)
            d = t.Depth
            before = bytes(t.Root.Hash.Data)
            t.Trim(bytearray(a['flags']))
            return ' '.join([before.hex(), str(d), bytes(MerkleTree.ComputeRoot(ls).Data).hex(), bytes(t.Root.Hash.Data).hex(),
                             hashlib.sha256(b''.join(sorted(bytes(h.Data) for h in MerkleTree(ls).ToHashArray()))).hexdigest(), Merkle.shape(t.Root)])
        return fn

    @staticmethod
    def shape(node):
        return 'x' if node.LeftChild is None else '(%s%s)' % (Merkle.shape(node.LeftChild), Merkle.shape(node.RightChild))

    @staticmethod
    def want(a):
        ls = Merkle.leaves(a)
        lv = oracle.merkle_levels(ls)
        root = lv[-1][0].hex()
        # two leaves that hang together stay together; what is reduced to one node is 'x'
        row = ['' if f else None for f in a['flags']]
        if len(lv) == 1:
            row = ['x']
        else:
            row = ['(xx)' if any(f is not None for f in row[i:i + 2]) else None for i in range(0, len(row), 2)]
            while len(row) > 1:
                up = []
                for i in range(0, len(row), 2):
                    l, r = row[i], row[min(i + 1, len(row) - 1)]
                    up.append(None if l is None and r is None else '(%s%s)' % (l or 'x', r or 'x'))
                row = up
        return ' '.join([root, str(len(lv)), root, root, hashlib.sha256(b''.join(sorted(set(ls)))).hexdigest(), row[0] or 'x'])


@job('amount', 3, crypto=False)
class Amount:
    @staticmethod
    def gen(rng):
        return dict(a=gen.sint(rng, 52), b=gen.sint(rng, 50), e=rng.randrange(5), t='%d.%08d' % (rng.getrandbits(rng.randrange(1, 33)), rng.randrange(10 ** 8)))

    @staticmethod
    def make(a):
        x, y, e = Fixed8(a['a']), Fixed8(a['b']), Fixed8(a['e'])

        def fn():
            u, v = x, x
            u += y
            v -= y
            return ' '.join(map(str, [(x + y).value, (x - y).value, (-x).value, (x / Fixed8(7)).value, x < y, x == y, x.ToInt(), Fixed8.FromDecimal(__import__('decimal').Decimal(a['t'])).value,
                                      Fixed8.TryParse(a['t']).value, x.Ceil().value, x.Floor().value, (x ** e).value, (x // Fixed8(11)).value, (x % Fixed8(11)).value, (x * y).value, x <= y, x > y, x >= y,
                                      u.value, v.value, x.value, Fixed8.Zero().value, Fixed8.One().value, x.ToString(), x.ToNeoJsonString()]))
        return fn

    @staticmethod
    def want(a):
        x, y, D = a['a'], a['b'], 10 ** 8
        t = int(Fraction(a['t']) * D)
        head = [x + y, x - y, -x, abs(x) // 7 * (1 if x > 0 else -1), x < y, x == y, abs(x) // D * (1 if x > 0 else -1), t, t, -(-x // D) * D, x // D * D, x ** a['e'], x // 11, x % 11, x * y, x <= y, x > y, x >= y,
                x + y, x - y, x, 0, D]

        def ok(res):
            r = res.split()
            try:
                return r[:-2] == [str(h) for h in head] and all(Fraction(i) * D == x for i in r[-2:])
            except ValueError:
                return False
        return ok


@job('integer', 3, crypto=False)
class Integer:
    @staticmethod
    def gen(rng):
        return dict(a=str(gen.bigint(rng, 400)), b=str(gen.bigint(rng, 400)), c=str(abs(gen.bigint(rng, 200))))

    @staticmethod
    def make(a):
        x, y, c = (BigInteger(int(a[k])) for k in 'abc')
        return lambda: ' '.join(map(str, [int(x + y), int(x - y), int(x * y), bytes(c.ToByteArray()).hex(), int(BigInteger.FromBytes(c.ToByteArray())), x.Equals(y), x < y, int(-x), int(abs(x)), int(x << 9), int(x >> 9),
                                          int(x / BigInteger(7)), int(x // BigInteger(7)), int(x % BigInteger(7)), x.Sign, x.ToString() if hasattr(x, 'ToString') else str(x)]))

    @staticmethod
    def want(a):
        x, y, c = (int(a[k]) for k in 'abc')
        enc = (c.to_bytes(c.bit_length() // 8 + 1, 'little', signed=True)).hex()
        return ' '.join(map(str, [x + y, x - y, x * y, enc, c, x == y, x < y, -x, abs(x), x << 9, x >> 9, x // 7, x // 7, x % 7, (x > 0) - (x < 0), x]))


@job('value', 3, crypto=False)
class Value:
    @staticmethod
    def gen(rng):
        w = rng.choice([20, 32])
        a = wire.nonhex(rng, w)
        b = gen.mutate_bytes(rng, a) if rng.random() < .6 else a
        if len(b) != w:
            b = a
        return dict(w=w, a=a.hex(), b=b.hex())

    @staticmethod
    def make(a):
        cls = UInt160 if a['w'] == 20 else UInt256
        x, y = cls(data=bytearray(H(a['a']))), cls(data=bytearray(H(a['b'])))

        def raw(v):
            s = io.BytesIO()
            v.Serialize(BinaryWriter(s))
            return s.getvalue().hex()
        return lambda: ' '.join(map(str, [x.To0xString(), bytes(cls.ParseString(str(y)).Data).hex(), x == y, x < y, x > y, x.CompareTo(y), len({x, y}), hash(x) == hash(cls(data=H(a['a']))),
                                          x.ToBytes().decode(), y.ToString2(), raw(x)]))

    @staticmethod
    def want(a):
        x, y = H(a['a'])[::-1], H(a['b'])[::-1]
        return ' '.join(map(str, ['0x' + x.hex(), y[::-1].hex(), x == y, x < y, x > y, (x > y) - (x < y), len({x, y}), True, x.hex(), y[::-1].hex(), x[::-1].hex()]))


class Stream:
    """writes to a stream of its own and reads everything back"""
    heavy = ('Array', 'Hashes')

    @staticmethod
    def gen(rng):
        return dict(seed=rng.getrandbits(40), n=rng.randrange(1, 9), cut=rng.random() < .25)

    @staticmethod
    def plan(a):
        r = random.Random(a['seed'])
        out = []
        for _ in range(a['n']):
            op = r.choices(wire.OPS, wire.WEIGHTS)[0]
            if 'only' in a:
                op = wire.OPS[a['only'] % len(wire.OPS)]
            out.append((op, op.gen(r)))
        return out, r.random()

    @staticmethod
    def make(a):
        plan, f = Stream.plan(a)

        def fn():
            s = wire.SpyStream()
            w = BinaryWriter(s)
            for op, v in plan:
                o = op.write(Null, w, v)
                if not o.ok:
                    return 'write %s raised' % op.name
            raw = s.getvalue()
            rd = BinaryReader(io.BytesIO(raw))
            for op, v in plan:
                o = op.read(Null, rd, v)
                if not o.ok:
                    return 'read %s raised' % op.name
                if op.norm(o.value) != op.expect(v):
                    return 'read %s gave another value' % op.name
            return hashlib.sha256(raw).hexdigest()
        return fn

    @staticmethod
    def want(a):
        plan, f = Stream.plan(a)
        return hashlib.sha256(b''.join(op.wire(v) for op, v in plan)).hexdigest()


job('stream', 6, crypto=False)(Stream)


@job('helpers', 2, crypto=False)
class Helpers:
    @staticmethod
    def gen(rng):
        n = rng.randrange(1, 40)
        return dict(n=str(abs(gen.bigint(rng, 300))), a=rng.randbytes(n).hex(), b=rng.randbytes(n).hex())

    @staticmethod
    def make(a):
        return lambda: ' '.join([hx(Helper.base256_encode(int(a['n']))), hx(Helper.xor_bytes(H(a['a']), H(a['b']))), str(swap32(int(a['n']) & 0xffffffff)), convert_to_uint160(int(a['n'])),
                                 convert_to_uint256(int(a['n']))])

    @staticmethod
    def want(a):
        n = int(a['n'])
        x = bytes(p ^ q for p, q in zip(H(a['a']), H(a['b']))).hex()
        return '%s %s %d %s %s' % (n.to_bytes((n.bit_length() + 7) // 8 or 1, 'little').hex(), x, int.from_bytes((n & 0xffffffff).to_bytes(4, 'little'), 'big'), format(n % 2 ** 20, '020b'), format(n % 2 ** 32, '032b'))


ALL = CRYPTO + OTHER


def generate(rng, names=None):
    name = rng.choice(names or ALL)
    return [name, OPS[name].gen(rng)]


def near(rng, j):
    """a call that differs from this one in little"""
    name, a = j[0], dict(j[1])
    for f in rng.sample(sorted(a), len(a)):
        v = a[f]
        if f == 'k' and isinstance(v, str) and len(v) == 64 and any(H(v)):
            k = int(v, 16)
            a[f] = oracle.b32(rng.choice([R1.n - k, R1.n - k, k ^ 1, k ^ 1 << rng.randrange(255), k + 1]) % R1.n or 1).hex()
        elif f == 'y' and name == 'verify':
            a[f] = '%x' % (R1.p - int(v, 16))
        elif f == 'c':
            a[f] = '%02x' % (int(v[:2], 16) ^ 1) + v[2:]
        elif f in ('m', 'h', 'sig') and v and isinstance(v, str):
            b = bytearray(H(v))
            b[rng.choice([0, -1, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
            a[f] = bytes(b).hex()
        elif f == 't' and name == 'nep2-in' and rng.random() < .6:
            # another key under the same passphrase
            a[f] = oracle.nep2_encrypt(keys.key(rng), a['pw'], kdf.cheap)
        elif f == 't' and name in ('wif-in', 'nep2-in', 'address-in'):
            i = rng.randrange(len(v)) if v else 0
            a[f] = v[:i] + rng.choice(oracle.B58) + v[i + 1:]
        elif f == 'pw':
            a[f] = rng.choice([v + 'x', v.swapcase() + '!', v[::-1] + 'a', ' ' + v])
        else:
            continue
        return [name, a]
    return j


def key(j):
    return json.dumps(j, sort_keys=True)


def prepare(j):
    """a thunk; what it needs is built now. Building may already be refused."""
    try:
        fn = OPS[j[0]].make(j[1])
    except Exception:
        return lambda: 'refused'

    def go():
        try:
            return fn()
        except Exception:
            return 'refused'
    return go


def execute(j):
    return prepare(j)()


class Judge:
    """reference answers, and the first answer seen for every job"""

    def __init__(self):
        self.wants, self.first = {}, {}

    def judge(self, j, res):
        """None, or what is wrong"""
        k = key(j)
        cls = OPS[j[0]]
        if k not in self.wants:
            self.wants[k] = cls.want(j[1])
        w = self.wants[k]
        if not (w(res) if callable(w) else res == w):
            return 'answer %s is wrong%s' % (res[:300], '' if callable(w) else ', expected ' + w[:300])
        if not getattr(cls, 'fresh', False) and self.first.setdefault(k, res) != res:
            return 'answer %s differs from the earlier answer %s' % (res[:300], self.first[k][:300])
        return None

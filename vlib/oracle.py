"""
Independent references. Nothing here imports neocore, bitcoin, ecdsa, base58 or scrypt.
RIPEMD-160 and AES come from pycryptodome, scrypt and SHA-2 from the standard library.
"""
import hashlib
import hmac
import unicodedata
from Crypto.Cipher import AES
from Crypto.Hash import RIPEMD160


def sha256(b):
    return hashlib.sha256(bytes(b)).digest()


def hash256(b):
    return sha256(sha256(b))


def hash160(b):
    return RIPEMD160.new(sha256(b)).digest()


# --- Base58

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
_B58I = {c: i for i, c in enumerate(B58)}


def b58encode(b):
    b = bytes(b)
    n = int.from_bytes(b, 'big')
    out = []
    while n:
        n, r = divmod(n, 58)
        out.append(B58[r])
    zeros = len(b) - len(b.lstrip(b'\0'))
    return '1' * zeros + ''.join(reversed(out))


def b58decode(s):
    """bytes, or None when s is not Base58 text"""
    n = 0
    for c in s:
        if c not in _B58I:
            return None
        n = n * 58 + _B58I[c]
    ones = len(s) - len(s.lstrip('1'))
    return bytes(ones) + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check(payload):
    return b58encode(payload + hash256(payload)[:4])


def b58check_decode(s):
    """payload or None"""
    raw = b58decode(s)
    if raw is None or len(raw) < 4 or hash256(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


def address(script_hash):
    return b58check(b'\x17' + bytes(script_hash))


def address_decode(s):
    """script hash, or None when s is not a NEO address"""
    p = b58check_decode(s) if isinstance(s, str) else None
    return p[1:] if p is not None and len(p) == 21 and p[0] == 0x17 else None


def wif(key):
    return b58check(b'\x80' + bytes(key) + b'\x01')


def wif_decode(s):
    p = b58check_decode(s) if isinstance(s, str) else None
    return p[1:33] if p is not None and len(p) == 34 and p[0] == 0x80 and p[33] == 1 else None


# --- elliptic curves: Jacobian coordinates, written from the group law

class Curve:
    def __init__(self, name, p, a, b, n, gx, gy):
        self.name, self.p, self.a, self.b, self.n, self.g = name, p, a % p, b, n, (gx, gy)
        self._table = None

    def on_curve(self, pt):
        if pt is None:
            return True
        x, y = pt
        return 0 <= x < self.p and 0 <= y < self.p and (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def neg(self, pt):
        return None if pt is None else (pt[0], -pt[1] % self.p)

    def add(self, s, t):
        if s is None:
            return t
        if t is None:
            return s
        p = self.p
        (x1, y1), (x2, y2) = s, t
        if x1 == x2:
            if (y1 + y2) % p == 0:
                return None
            m = (3 * x1 * x1 + self.a) * pow(2 * y1, -1, p) % p
        else:
            m = (y1 - y2) * pow(x1 - x2, -1, p) % p
        x = (m * m - x1 - x2) % p
        return x, (m * (x1 - x) - y1) % p

    def _jdouble(self, P):
        X, Y, Z = P
        p = self.p
        if not Y:
            return 0, 1, 0
        S = 4 * X * Y * Y % p
        Z2 = Z * Z % p
        M = (3 * X * X + self.a * Z2 * Z2) % p
        X3 = (M * M - 2 * S) % p
        return X3, (M * (S - X3) - 8 * pow(Y, 4, p)) % p, 2 * Y * Z % p

    def _jadd(self, P, Q):
        if not P[2]:
            return Q
        if not Q[2]:
            return P
        p = self.p
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        a, b = Z1 * Z1 % p, Z2 * Z2 % p
        U1, U2 = X1 * b % p, X2 * a % p
        S1, S2 = Y1 * b * Z2 % p, Y2 * a * Z1 % p
        if U1 == U2:
            return self._jdouble(P) if S1 == S2 else (0, 1, 0)
        H, R = U2 - U1, S2 - S1
        H2 = H * H % p
        H3 = H * H2 % p
        V = U1 * H2 % p
        X3 = (R * R - H3 - 2 * V) % p
        return X3, (R * (V - X3) - S1 * H3) % p, H * Z1 * Z2 % p

    def _affine(self, P):
        if not P[2]:
            return None
        i = pow(P[2], -1, self.p)
        return P[0] * i * i % self.p, P[1] * i * i * i % self.p

    def mul(self, k, pt=None):
        """k times pt (the base point when omitted), any integer k"""
        if pt is None:
            return self.mul_g(k)
        k %= self.n
        acc, q = (0, 1, 0), (pt[0], pt[1], 1)
        while k:
            if k & 1:
                acc = self._jadd(acc, q)
            q = self._jdouble(q)
            k >>= 1
        return self._affine(acc)

    def mul_g(self, k):
        if self._table is None:
            table, q = [], (self.g[0], self.g[1], 1)       # threads may meet here
            for _ in range(64):
                row, r = [(0, 1, 0)], (0, 1, 0)
                for _ in range(15):
                    r = self._jadd(r, q)
                    row.append(r)
                table.append(row)
                for _ in range(4):
                    q = self._jdouble(q)
            self._table = table
        k %= self.n
        acc, i = (0, 1, 0), 0
        while k:
            if k & 15:
                acc = self._jadd(acc, self._table[i][k & 15])
            k >>= 4
            i += 1
        return self._affine(acc)

    def lift_x(self, x, odd):
        """point with this x and parity of y, or None"""
        if not 0 <= x < self.p:
            return None
        y2 = (x * x * x + self.a * x + self.b) % self.p
        y = pow(y2, (self.p + 1) // 4, self.p)
        if y * y % self.p != y2:
            return None
        if y & 1 != odd:
            if y == 0:
                return None
            y = self.p - y
        return x, y

    def lift_y(self, y, which=0):
        """a point with this y, or None; up to three points share a y"""
        p = self.p
        a, c = self.a, (self.b - y * y) % p                  # x^3 + a x + c

        def mul(u, v):
            r = [0] * 5
            for i in range(3):
                for j in range(3):
                    r[i + j] += u[i] * v[j]
            for d in (4, 3):                                 # x^3 = -a x - c
                r[d - 2] -= a * r[d]
                r[d - 3] -= c * r[d]
            return [r[0] % p, r[1] % p, r[2] % p]

        def power(u, e):
            acc = [1, 0, 0]
            for bit in bin(e)[2:]:
                acc = mul(acc, acc)
                if bit == '1':
                    acc = mul(acc, u)
            return acc

        def gcd(u, v):
            while True:
                while v and not v[-1] % p:
                    v = v[:-1]
                if not v:
                    i = pow(u[-1], -1, p)
                    return [k * i % p for k in u]
                i = pow(v[-1], -1, p)
                u = list(u)
                while len(u) >= len(v):
                    q = u[-1] * i % p
                    for k in range(len(v)):
                        u[len(u) - len(v) + k] = (u[len(u) - len(v) + k] - q * v[k]) % p
                    u.pop()
                u, v = v, u

        f = [c, a, 0, 1]
        h = power([0, 1, 0], p)
        g = gcd(f, [h[0], (h[1] - 1) % p, h[2]])
        t = which
        while len(g) > 2:
            t += 1
            h = power([t, 1, 0], (p - 1) // 2)
            d = gcd(g, [(h[0] - 1) % p, h[1], h[2]])
            if 1 < len(d) < len(g):
                g = d
        return (-g[0] % p, y) if len(g) == 2 else None

    # ECDSA
    def ecdsa_valid(self, e, r, s, pub):
        """the standard verification equation for integer message e"""
        n = self.n
        if not (0 < r < n and 0 < s < n) or pub is None or not self.on_curve(pub):
            return False
        w = pow(s, -1, n)
        R = self.add(self.mul_g(e * w % n), self.mul(r * w % n, pub))
        return R is not None and R[0] % n == r

    def ecdsa_sign(self, e, d, k):
        R = self.mul_g(k)
        r = R[0] % self.n
        s = pow(k, -1, self.n) * (e + r * d) % self.n
        return r, s

    def craft(self, e, R, s):
        """public key under which (R.x mod n, s) is a valid signature of e, for any point R"""
        r = R[0] % self.n
        ri = pow(r, -1, self.n)
        return self.add(self.mul(ri * s % self.n, R), self.neg(self.mul_g(ri * e % self.n)))


R1 = Curve('secp256r1',
           0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF, -3,
           0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
           0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
           0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
           0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5)
K1 = Curve('secp256k1', 2 ** 256 - 2 ** 32 - 977, 0, 7,
           0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
           0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
           0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def b32(n):
    return n.to_bytes(32, 'big')


def compress(pt):
    return bytes([2 + (pt[1] & 1)]) + b32(pt[0])


def pub_of(key):
    return R1.mul_g(int.from_bytes(key, 'big'))


def key_script(pt):
    return b'\x21' + compress(pt) + b'\xac'


def key_address(key):
    return address(hash160(key_script(pub_of(key))))


# --- NEP-2

_scrypt = hashlib.scrypt


def nep2_scrypt(pw, salt):
    return _scrypt(pw, salt=salt, n=16384, r=8, p=8, dklen=64, maxmem=64 << 20)


def nep2_encrypt(key, passphrase, kdf=nep2_scrypt, addr=None):
    ah = hash256((addr or key_address(key)).encode())[:4]
    d = kdf(unicodedata.normalize('NFC', passphrase).encode('utf-8'), ah)
    x = bytes(a ^ b for a, b in zip(key, d[:32]))
    return b58check(b'\x01\x42\xe0' + ah + AES.new(d[32:], AES.MODE_ECB).encrypt(x))


def nep2_decrypt(text, passphrase, kdf=nep2_scrypt):
    """key, or None when refused"""
    p = b58check_decode(text)
    if p is None or len(p) != 39 or p[:3] != b'\x01\x42\xe0':
        return None
    ah, enc = p[3:7], p[7:]
    d = kdf(unicodedata.normalize('NFC', passphrase).encode('utf-8'), ah)
    key = bytes(a ^ b for a, b in zip(AES.new(d[32:], AES.MODE_ECB).decrypt(enc), d[:32]))
    k = int.from_bytes(key, 'big')
    if not 0 < k < R1.n or hash256(key_address(key).encode())[:4] != ah:
        return None
    return key


# --- NEO wire format

def varint(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


# --- Merkle

def merkle_levels(leaves):
    """all levels, leaves first"""
    levels = [list(leaves)]
    while len(levels[-1]) > 1:
        cur = levels[-1]
        levels.append([hash256(cur[i] + cur[min(i + 1, len(cur) - 1)]) for i in range(0, len(cur), 2)])
    return levels


def rfc6979_k(key, h):
    """first candidate nonce of RFC 6979 with SHA-256 (message hash as is)"""
    v, k = b'\1' * 32, b'\0' * 32
    k = hmac.new(k, v + b'\0' + key + h, hashlib.sha256).digest()
    v = hmac.new(k, v, hashlib.sha256).digest()
    k = hmac.new(k, v + b'\1' + key + h, hashlib.sha256).digest()
    v = hmac.new(k, v, hashlib.sha256).digest()
    return int.from_bytes(hmac.new(k, v, hashlib.sha256).digest(), 'big')

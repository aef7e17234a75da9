"""
Stand-in for the scrypt primitive, so that the NEP-2 code around it runs thousands of times.
Installed before neocore is imported, in the scrypt package, hashlib and pycryptodome. It is a
function of the password, the salt and every parameter (a one-round PBKDF2), so a change of any
of them shows. Off by default: the real scrypt runs. `calls` tells whether the code under test
really used it.
"""
import hashlib
import scrypt as scrypt_package
from Crypto.Protocol import KDF
from vlib import oracle  # noqa: F401  (takes the real scrypt before the stand-in is installed)

calls = 0
on = False
_real = (scrypt_package.hash, hashlib.scrypt, KDF.scrypt)


def cheap(pw, salt, N=16384, r=8, p=8, length=64):
    b = lambda x: x.encode('utf-8') if isinstance(x, str) else bytes(x)
    return hashlib.pbkdf2_hmac('sha256', b(pw), b(salt) + b'|%d|%d|%d|%d' % (N, r, p, length), 1, length)


def _package(password, salt, N=1 << 14, r=8, p=1, buflen=64, *a, **kw):
    global calls
    calls += 1
    return cheap(password, salt, N, r, p, buflen) if on else _real[0](password, salt, N, r, p, buflen, *a, **kw)


def _hashlib(password, *, salt=None, n=None, r=None, p=None, maxmem=0, dklen=64):
    global calls
    calls += 1
    return cheap(password, salt, n, r, p, dklen) if on else _real[1](password, salt=salt, n=n, r=r, p=p, maxmem=maxmem, dklen=dklen)


def _pycrypto(password, salt, key_len, N, r, p, num_keys=1):
    global calls
    calls += 1
    return cheap(password, salt, N, r, p, key_len) if on else _real[2](password, salt, key_len, N, r, p, num_keys)


def install():
    scrypt_package.hash, hashlib.scrypt, KDF.scrypt = _package, _hashlib, _pycrypto


class standin:
    """with standin(): the stand-in answers"""

    def __enter__(self):
        global on
        on = True
        self.before = calls
        return self

    def __exit__(self, *a):
        global on
        on = False

    @property
    def used(self):
        return calls > self.before

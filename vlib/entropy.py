"""
Watches how many bytes the code under test draws from the operating system's random source.
Installed before neocore and pycryptodome are imported.
"""
import os

drawn = 0
calls = 0
_urandom = os.urandom
_getrandom = getattr(os, 'getrandom', None)


def urandom(n):
    global drawn, calls
    drawn += n
    calls += 1
    return _urandom(n)


def getrandom(n, flags=0):
    global drawn, calls
    drawn += n
    calls += 1
    return _getrandom(n, flags)


def install():
    import random
    os.urandom = urandom
    if _getrandom:
        os.getrandom = getrandom
    if hasattr(random, '_urandom'):
        random._urandom = urandom           # random.SystemRandom, secrets

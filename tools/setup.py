#!/opt/venv/bin/python
"""Setup: nothing to compile; make sure the interpreter, the libraries and /repo are there."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo']
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import base58, bitcoin, ecdsa, scrypt, Crypto.Hash.RIPEMD160, neocore  # noqa: E401,F401,E402
from vlib import oracle  # noqa: E402
assert neocore.__file__.startswith('/repo/'), neocore.__file__
assert oracle.R1.on_curve(oracle.R1.mul_g(12345)) and oracle.R1.mul_g(oracle.R1.n) is None
os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
print('ready')

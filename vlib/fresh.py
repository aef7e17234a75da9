"""
A fresh process. Reads {first: job, jobs: [...], threads: n, ...} from standard input.

Without threads: the first job is the first thing the process does with the library, and only the
module it needs is imported for it; then the other jobs run in order. With threads: every thread's
first call meets the others' (see sched).
Prints the answers.
"""
import json
import logging
import sys

H = bytes.fromhex


def first(j):
    """one call with the least imported; None when there is no such form of the job"""
    op, a = j
    if op == 'sign':
        from neocore.Cryptography.Crypto import Crypto
        fn = Crypto.Sign if a['how'] == 0 else Crypto.Default().Sign
        return bytes(fn(a['m'], a['k'])).hex()
    if op == 'verify':
        from neocore.Cryptography.Crypto import Crypto
        x, y = int(a['x'], 16), int(a['y'], 16)
        if a['form'] == 2:
            from neocore.Cryptography.ECCurve import ECDSA
            pub = ECDSA.secp256r1().Curve.point(x, y)
        else:
            pub = bytes([2 + (y & 1)]) + x.to_bytes(32, 'big') if a['form'] == 0 else x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
        fn = Crypto.VerifySignature if a['how'] == 0 else Crypto.Default().VerifySignature
        return repr(fn(a['m'], bytearray(H(a['sig'])), pub))
    if op == 'keypair' and a['form'] == 32:
        from neocore.KeyPair import KeyPair
        kp = KeyPair(H(a['k']))
        return ' '.join(['%x %x' % (kp.PublicKey.x.value, kp.PublicKey.y.value), bytes(kp.PublicKeyHash.Data).hex(), bytes(kp.PrivateKey).hex(), kp.GetAddress(), kp.Export()])
    if op == 'wif-in':
        from neocore.KeyPair import KeyPair
        return bytes(KeyPair.PrivateKeyFromWIF(a['t'])).hex()
    if op == 'point':
        from neocore.Cryptography.ECCurve import ECDSA
        p = ECDSA.decode_secp256r1(a['c']).G
        return ' '.join(['%x %x' % (p.x.value, p.y.value), p.encode_point(True).decode(), p.encode_point(False).decode()])
    if op == 'address-in':
        from neocore.Utils import isValidPublicAddress
        ok = isValidPublicAddress(a['t'])
        from neocore.bin import cli
        try:
            return '%s %s' % (ok, cli.address_to_scripthash(a['t']).hex())
        except cli.ConversionError:
            return '%s none' % ok
    if op == 'address-out':
        from neocore.Cryptography import Helper
        return Helper.scripthash_to_address(H(a['h']))
    if op == 'script-hash':
        from neocore.Cryptography.Crypto import Crypto
        return bytes(Crypto.ToScriptHash(a['m']).Data).hex()
    return None


def main():
    logging.disable(logging.CRITICAL)
    spec = json.load(sys.stdin)
    sys.set_int_max_str_digits(0)
    sys.setrecursionlimit(3000)
    if spec.get('threads'):
        from vlib import kdf, jobs, sched
        kdf.on = True
        plans = spec['threads']
        out, info = sched.run([[(lambda j=j: jobs.execute(j)) for j in p] for p in plans], spec['seed'], spec['mode'])
        print(json.dumps(dict(out=out, switches=info['switches'], pairs=len(info['pairs']), stolen=info['stolen'])))
        return
    try:
        head = first(spec['jobs'][0])
    except Exception:
        head = 'refused'
    from vlib import kdf, jobs
    kdf.on = True
    out = [[] for _ in spec['jobs']]
    if head is not None:
        out[0].append(head)
    for i, j in enumerate(spec['jobs']):
        out[i].append(jobs.execute(j))
    for i, j in enumerate(spec['jobs']):
        out[i].append(jobs.execute(j))
    print(json.dumps(dict(out=out)))


if __name__ == '__main__':
    main()

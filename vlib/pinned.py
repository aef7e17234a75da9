"""
A process in which everything a poor generator would use is pinned: the state of the general-purpose
random generator, the clock, the process id, host id. Prints keys made in it.
argv: what to make (wallet or random_key), how many, whether to fork.
"""
import datetime
import json
import os
import random
import sys
import time
import uuid


def pin():
    random.seed(12345)
    for name in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        if hasattr(time, name):
            setattr(time, name, lambda: 1500000000.25)
            if hasattr(time, name + '_ns'):
                setattr(time, name + '_ns', lambda: 1500000000250000000)
    os.getpid = lambda: 4242
    os.getppid = lambda: 4241
    uuid.getnode = lambda: 77
    uuid.uuid1 = lambda *a, **k: uuid.UUID(int=5)

    class Fixed(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls(2017, 7, 14, 2, 40)

        @classmethod
        def utcnow(cls):
            return cls(2017, 7, 14, 2, 40)
    datetime.datetime = Fixed


def make(what, n):
    from neocore.bin import cli
    from neocore.Cryptography import Helper
    out = []
    for i in range(n):
        random.seed(12345 + i // 2)
        out.append(cli.create_wallet() if what == 'wallet' else Helper.random_key().decode())
    return out


if __name__ == '__main__':
    what, n, fork = sys.argv[1], int(sys.argv[2]), sys.argv[3] == 'fork'
    pin()
    if not fork:
        print(json.dumps([make(what, n)]))
    else:
        make(what, 1)                       # import and use before forking
        res = []
        for _ in range(3):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.write(w, json.dumps(make(what, n)).encode())
                finally:
                    os._exit(0)
            os.close(w)
            data = b''
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
            os.close(r)
            os.waitpid(pid, 0)
            res.append(json.loads(data))
        res.append(make(what, n))
        print(json.dumps(res))

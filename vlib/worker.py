"""One worker process of a check: runs its share of the cases and writes what it observed."""
import importlib
import json
import logging
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402


def quiet():
    """neocore logs every refusal; keep the log out of the check's output."""
    logging.disable(logging.CRITICAL)


def main():
    spec = json.loads(sys.argv[1])
    sys.path.insert(0, core.REPO)
    core.limits()
    sys.setrecursionlimit(3000)
    try:
        sys.set_int_max_str_digits(0)
    except AttributeError:
        pass
    cov = core.LineCoverage()
    cov.start()
    quiet()
    mod = importlib.import_module('props.' + spec['prop'])
    run = core.Run(mod, spec['tier'], spec['seed'], spec['shard'], spec['nshards'], core.load_known(spec['prop']))
    import neocore
    if not os.path.abspath(neocore.__file__).startswith(core.REPO + '/'):
        run.errors.append('neocore imported from %s' % neocore.__file__)
    elif spec.get('replay'):
        fam = [f for f in mod.FAMILIES if f.name == spec['replay']['family']][0]
        run.one(fam, spec['replay']['index'])
    else:
        run.go()
    if hasattr(mod, 'finish'):
        mod.finish(run)
    res = run.result()
    res['lines'] = cov.result()
    core.write_json(spec['out'], res)
    if run.stop:
        os._exit(0)         # threads of a case that did not end would keep the process


if __name__ == '__main__':
    main()

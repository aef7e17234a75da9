"""Build and confirm planted bugs.

  plant.py make SPEC.py     write /verif/seeded/<id>/ for each bug in SPEC.py and confirm each
  plant.py check [ID ...]   confirm those in /verif/seeded again (all without IDs)

Confirm: the patch applies to a scratch copy of /repo, changes lines of the
original repository only, the modules compile, the tests pass, the demo passes
without and fails with it.  Then the check of the bug's property is run (quick
tier) against the scratch copy.
"""
import warnings
warnings.simplefilter('ignore')
import json, os, shutil, subprocess, sys, tempfile, py_compile
from concurrent.futures import ThreadPoolExecutor

SEED = '/verif/seeded'
PY = '/opt/venv/bin/python'
BASE = '0fd6050'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('tests', []) or [])


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def scratch():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
    return d


def original_lines(d, rel):
    """line numbers of rel (1-based) that the base commit already had"""
    rc, out = sh(['git', 'blame', '-s', '--root', '-l', 'HEAD', '--', rel], cwd='/repo')
    basefull = sh(['git', 'rev-parse', BASE], cwd='/repo')[1].strip()
    anc = set(sh(['git', 'rev-list', BASE], cwd='/repo')[1].split())
    res = set()
    for i, l in enumerate(out.splitlines(), 1):
        if l.split()[0].lstrip('^') in anc or basefull.startswith(l.split()[0].lstrip('^')):
            res.add(i)
    return res


def removed(patch):
    """(file, line number) of every removed line"""
    f = None
    n = 0
    out = []
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'):
            pass
        elif l.startswith('-'):
            out.append((f, n))
            n += 1
        elif l.startswith(' '):
            n += 1
    return out


def confirm(bid, seeds=('1',)):
    bd = os.path.join(SEED, bid)
    meta = json.load(open(bd + '/meta.json'))
    notes = []
    patch = open(bd + '/patch.diff').read()
    rem = removed(patch)
    if not rem:
        notes.append('NO-REMOVED')
    cache = {}
    for f, n in rem:
        o = cache.setdefault(f, original_lines('/repo', f))
        if n not in o:
            notes.append('not-original:%s:%d' % (f, n))
    d = scratch()
    try:
        env = {'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
               'PATH': '/opt/venv/bin:' + os.environ['PATH']}
        rc, out = sh(['bash', bd + '/demo.sh'], cwd=d, env=env, timeout=300)
        if rc:
            notes.append('DEMO-FAILS-CLEAN: ' + out[-300:])
        rc, out = sh(['git', 'apply', bd + '/patch.diff'], cwd=d)
        if rc:
            notes.append('NO-APPLY ' + out[-300:])
        rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=d, env=env)
        last = out.strip().splitlines()[-1] if out.strip() else ''
        if rc:
            notes.append('TESTS: ' + last + ' ' + ' '.join(l for l in out.splitlines() if l.startswith('FAILED'))[:200])
        rc, out = sh(['bash', bd + '/demo.sh'], cwd=d, env=env, timeout=300)
        if not rc:
            notes.append('DEMO-PASSES-WITH')
        caught = []
        props = [meta['property']] + meta.get('also', [])
        for p in props:
            for s in seeds:
                ed = tempfile.mkdtemp(prefix='plant-ev.', dir='/tmp')
                rc, out = sh([PY, 'run.py', p], cwd='/verif',
                             env={'VERIF_REPO': d, 'VERIF_SEED': s, 'VERIF_TIER': 'quick', 'VERIF_EVIDENCE': ed,
                                  'PATH': env['PATH']})
                shutil.rmtree(ed)
                hit = rc == 1 and ('VIOLATION property=%s ' % p) in out
                caught.append('%s/%s:%s' % (p, s, 'CAUGHT' if hit else 'missed(rc=%d)' % rc))
                if not hit and rc:
                    notes.append(out[-400:])
        return bid, notes, caught
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    ids = []
    for b in ns['BUGS']:
        bid = b['id']
        d = scratch()
        try:
            ok = True
            for rel, old, new in b['edits']:
                p = os.path.join(d, rel)
                s = open(p).read()
                if s.count(old) != 1:
                    print(bid, 'EDIT: %d matches of %r' % (s.count(old), old[:80]))
                    ok = False
                    break
                s = s.replace(old, new)
                open(p, 'w').write(s)
                compile(s, p, 'exec')
            if not ok:
                continue
            rc, diff = sh(['git', 'diff'], cwd=d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        bd = os.path.join(SEED, bid)
        os.makedirs(bd, exist_ok=True)
        open(bd + '/patch.diff', 'w').write(diff)
        open(bd + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + b['demo'].lstrip('\n'))
        open(bd + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds, run with cwd /repo\n'
                                         'export PYTHONDONTWRITEBYTECODE=1\n'
                                         'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(bd + '/demo.sh', 0o755)
        m = {'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}
        json.dump(m, open(bd + '/meta.json', 'w'), indent=1)
        open(bd + '/meta.json', 'a').write('\n')
        ids.append(bid)
    return ids


def main():
    if sys.argv[1] == 'make':
        ids = make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
    heavy = [i for i in ids if i[:3] in ('C01', 'C02', 'C03', 'C04', 'T01', 'W01')]
    light = [i for i in ids if i not in heavy]
    for group, n in ((light, 6), (heavy, 2)):
        with ThreadPoolExecutor(n) as ex:
            for bid, notes, caught in ex.map(confirm, group):
                print(bid, ' '.join(caught), '|', 'ok' if not notes else ' ## '.join(notes), flush=True)


main()

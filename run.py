#!/opt/venv/bin/python
"""
run.py PROP            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
run.py --replay FILE   run the recorded case again and print its history

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402

PY = '/opt/venv/bin/python'


def worker_env(tmp, hashseed=0):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'VERIF_'))}
    # no stale bytecode is read and none is written into /repo
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), PYTHONHASHSEED=str(hashseed),
               PYTHONWARNINGS='ignore', VERIF_REPO=core.REPO, VERIF_TMP=tmp, LC_ALL='C.UTF-8')
    return env


def run_workers(prop, tier, seed, tmp, shards, nshards, replay=None, wall=840):
    procs, outs = [], []
    for shard in shards:
        out = os.path.join(tmp, 'out%d.json' % shard)
        spec = dict(prop=prop, tier=tier, seed=seed, shard=shard, nshards=nshards, out=out, replay=replay)
        err = open(os.path.join(tmp, 'err%d' % shard), 'w+')
        procs.append((subprocess.Popen([PY, os.path.join(core.VERIF, 'vlib', 'worker.py'), json.dumps(spec)],
                                       env=worker_env(tmp, shard), stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                                       cwd=tmp, start_new_session=True), err))
        outs.append(out)
    results, problems = [], []
    deadline = time.time() + wall
    for i, (p, err) in enumerate(procs):
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = 'timeout'
        if os.path.exists(outs[i]):
            results.append(json.load(open(outs[i])))
        if rc != 0:
            err.seek(0)
            problems.append('worker %d ended with %s: %s' % (i, rc, err.read()[-3000:]))
        err.close()
    return results, problems


def add(into, frm):
    for k, v in frm.items():
        into[k] = into.get(k, 0) + v


def main():
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors='backslashreplace')        # messages hold any text
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(os.path.join(core.VERIF, 'evidence', 'replay'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        meta = importlib.import_module('vlib.meta').META[prop]
        nshards = core.NWORKERS
        results, problems = run_workers(prop, tier, seed, tmp, range(nshards), nshards, wall=840 if tier == 'quick' else 6 * 3600)
        return verdict(prop, tier, seed, t0, meta, results, problems)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def verdict(prop, tier, seed, t0, meta, results, problems):
    mon, ev, exc, cases, known_hits, extra = {}, {}, {}, {}, {}, {}
    feats, samples, viol, lines = set(), [], [], {}
    for r in results:
        add(mon, r['monitors'])
        add(ev, r['events'])
        add(exc, r['exceptions'])
        add(cases, r['cases'])
        add(known_hits, r['known_hits'])
        for k, v in r['extra'].items():
            if k.startswith('_'):
                continue                # for the cross-worker oracle only
            if isinstance(v, (int, float)):
                extra[k] = extra.get(k, 0) + v
            elif isinstance(v, list):
                extra.setdefault(k, [])
                extra[k] = sorted(set(map(str, extra[k])) | set(map(str, v)))[:200]
        feats |= set(r['features'])
        samples += r['samples']
        viol += r['violations']
        problems += r['errors']
        for f, ls in r['lines'].items():
            lines.setdefault(f, set()).update(ls)
    # cross-worker oracle over what all workers recorded
    mod = None
    if meta.get('merge'):
        mod = importlib.import_module('props.' + prop + '_merge')
        viol += mod.merge([r['extra'] for r in results], mon, seed, tier)
    cover = {}
    for f in sorted(lines):
        ex = core.executable_lines(os.path.join(core.REPO, f))
        if ex:
            cover[f] = '%d of %d lines' % (len(lines[f] & ex), len(ex))
    missing = [m for m in meta['monitors'] if not mon.get(m)]
    known = core.load_known(prop)
    seen_samples, out_samples = set(), []
    for s in samples:
        k = s['family'] if isinstance(s, dict) else None
        if k not in seen_samples:
            seen_samples.add(k)
            out_samples.append(s)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(cases.values()),
            'distinct_nontrivial': len(feats),
            'rule': meta['rule'],
            'samples': out_samples[:12],
            'cases_per_family': cases,
            'monitor_evaluations': mon,
            'observed_events': ev,
            'observed_exceptions': dict(sorted(exc.items(), key=lambda kv: -kv[1])[:60]),
            'known_findings_observed': known_hits,
            'lines_of_neocore_executed': cover,
            'extra': extra,
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    core.write_json(os.path.join(core.VERIF, 'evidence', prop + '.json'), evidence)
    print('%s %s seed=%d: %d cases, %d distinct, %d monitor evaluations, %d events, %.1f s'
          % (prop, tier, seed, sum(cases.values()), len(feats), sum(mon.values()), sum(ev.values()), time.time() - t0))
    for kid in sorted(known):
        if known_hits.get(kid):
            print('KNOWN-FINDING: property=%s %s' % (prop, known[kid]))
    if viol:
        shown = set()
        first = None
        for i, v in enumerate(viol):
            if v['monitor'] in shown and len(shown) > 0:
                continue
            shown.add(v['monitor'])
            path = os.path.join(core.VERIF, 'evidence', 'replay', '%s-%s-%s-%d.json' % (prop, v['family'], v['index'], seed))
            core.write_json(path, v)
            first = first or path
            print('  %s (family %s, case %s): %s' % (v['monitor'], v['family'], v['index'], v['message'][:1500]))
            if len(shown) >= 5:
                break
        print('VIOLATION property=%s replay=%s' % (prop, first))
        return 1
    if problems:
        print('NO VERDICT: harness problem\n' + '\n'.join(problems)[:6000], file=sys.stderr)
        return 2
    if missing or not feats:
        print('NO VERDICT: monitors never evaluated: %s' % missing, file=sys.stderr)
        return 2
    return 0


def replay(path):
    """the recorded case alone; if it holds alone, everything its worker process ran"""
    v = json.load(open(path))
    shard, problems = v.get('shard', 0), []
    if 'shard' not in v:
        print('found by comparing what all workers recorded; running the check again')
        os.environ['VERIF_SEED'] = str(v['seed'])
        sys.argv = [sys.argv[0], v['property'], v['tier']]
        return main()
    for alone in (True, False):
        tmp = tempfile.mkdtemp(prefix='verif-replay-')
        try:
            results, problems = run_workers(v['property'], v['tier'], v['seed'], tmp, [shard], core.NWORKERS,
                                            replay={'family': v['family'], 'index': v['index']} if alone else None, wall=6 * 3600)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for r in results:
            problems += r['errors']
            for w in r['violations']:
                if not alone and len(w['history']) and (w['family'], w['index']) != (v['family'], v['index']):
                    print('another case of the same worker fails:')
                for h in w['history']:
                    print('  %s(%s) -> %s' % (h[0], ', '.join(h[1]), h[2]))
                print('%s: %s' % (w['monitor'], w['message']))
                print('VIOLATION property=%s replay=%s' % (v['property'], path))
                return 1
        print('\n'.join(problems) or ('the case holds alone; running everything its worker ran' if alone else 'it holds'))
    return 2 if problems else 0


if __name__ == '__main__':
    sys.exit(main())

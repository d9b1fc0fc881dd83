#!/usr/bin/env python3
"""check.py PROP [--replay FILE]: decides one property on /repo's current tree.

1. builds what it needs from /repo (objects, drivers, typed ASTs),
2. generates and discharges every proof obligation of the property's contracts,
3. evaluates the same contracts on the real code (bounded; finds failing inputs).
Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import importlib.util
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from fw import build, props                                     # noqa: E402

VT = 'python3-vt'


def harness(prop, cfg, drv, pyt, budget, seed, rnd, out):
    env = dict(os.environ, PYTHONPATH=pyt, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION='python', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        r = subprocess.run([build.PY, VERIF + '/harness/h.py', prop, out, str(budget), str(seed), drv or '-', str(rnd)], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget * 2 + 120)
        return json.load(open(out))
    except subprocess.TimeoutExpired:
        return dict(error='harness timed out', violations=[], evaluations=0)
    except Exception as e:
        return dict(error='harness: %s %s' % (e, r.stdout[-1500:]), violations=[], evaluations=0)


def parallel(fns):
    res = [None] * len(fns)
    errs = []

    def w(i, f):
        try:
            res[i] = f()
        except build.BuildError as e:
            errs.append(e)
    ts = [threading.Thread(target=w, args=(i, f)) for i, f in enumerate(fns)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = props.PROPS[prop]
    work = os.path.join(build.B, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(cfg, sys.argv[3])
    # -------------------------------------------------------------- build
    drv, irs, pyt = None, [], None
    jobs = [build.pytree]
    if cfg.get('tus') or cfg.get('driver'):
        d = build.ccdir()
        ext = build.extractor()
        jobs += [lambda t=t: build.ir(t, d, ext) for t in cfg.get('tus', [])]
        if cfg.get('driver'):
            jobs.append(lambda: build.driver(cfg['driver'], d))
    r = parallel(jobs)
    pyt = r[0]
    if cfg.get('driver'):
        drv = r[-1]
    irs = r[1:1 + len(cfg.get('tus', []))]
    tb = time.time() - t0
    # -------------------------------------------------------------- prove and run
    bfile = work + '/build.json'
    scale = 1 if tier == 'quick' else 3
    json.dump(dict(ir=irs, protos=build.protos() + '/protos.json', pytree=pyt, src=build.SRC, scale=scale), open(bfile, 'w'))
    budget = cfg.get('budget', 40) if tier == 'quick' else cfg.get('thorough', 400)
    nh = cfg.get('jobs', 2)
    hs = [None] * nh
    vc = {}

    def prove():
        if not os.path.exists(VERIF + '/contracts/%s.py' % prop.lower()):
            vc.update(obligations=[], functions=[], undecided=[], nocontracts=True)
            return
        try:
            p = subprocess.run([VT, '-m', 'wodvc.run', prop, bfile, work + '/vc.json'], cwd=VERIF, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=420 if tier == 'quick' else 2400,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
            vc.update(json.load(open(work + '/vc.json')))
        except Exception as e:
            vc.update(error='prover run failed: %s' % str(e)[-1500:], obligations=[], functions=[], undecided=[])
    th = [threading.Thread(target=prove)]
    if cfg.get('harness', True):
        def hrun(i):
            hs[i] = harness(prop, cfg, drv, pyt, budget, seed, i, work + '/h%d.json' % i)
        th += [threading.Thread(target=hrun, args=(i,)) for i in range(nh)]
    [t.start() for t in th]
    [t.join() for t in th]
    hs = [h for h in hs if h]
    # -------------------------------------------------------------- verdict
    failed = [o for o in vc.get('obligations', []) if o['status'] != 'proved']
    viol = [v for h in hs for v in h.get('violations', [])]
    known = json.load(open(VERIF + '/known_findings.json'))
    kf = {k['kind']: k for k in known.get('findings', []) if k['property'] == prop}
    kfo = {k['obligation']: k for k in known.get('findings', []) if k['property'] == prop and 'obligation' in k}
    fresh = {}
    shown = {}
    for v in viol:
        if v['kind'] in kf:
            shown[v['kind']] = kf[v['kind']]
        else:
            fresh.setdefault(v['kind'], v)
    open_obs = []
    for o in failed:
        nm = '%s: %s' % (o['fn'], o['name'])
        if nm in kfo:
            shown[kfo[nm]['kind']] = kfo[nm]
        else:
            open_obs.append(o)
    if open_obs and not fresh and cfg.get('harness', True):
        # an obligation that holds on the pinned tree is no longer accepted: search longer for a failing input
        n2 = 6
        ext = [None] * n2
        b2 = cfg.get('search', 90)

        def hrun2(i):
            ext[i] = harness(prop, cfg, drv, pyt, b2, seed + 1000 + i, 10 + i, work + '/x%d.json' % i)
        th = [threading.Thread(target=hrun2, args=(i,)) for i in range(n2)]
        [t.start() for t in th]
        [t.join() for t in th]
        for h in ext:
            hs.append(h)
            for v in h.get('violations', []):
                if v['kind'] not in kf:
                    fresh.setdefault(v['kind'], v)
    rdir = build.B + '/replay'
    os.makedirs(rdir, exist_ok=True)
    lines, rc = [], 0
    for k, f in sorted(shown.items()):
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    if fresh:
        path = '%s/%s-%d.json' % (rdir, prop, os.getpid())
        json.dump(dict(property=prop, driver=cfg.get('driver'), violations=list(fresh.values()), failed_obligations=failed), open(path, 'w'), indent=1, default=repr)
        for v in list(fresh.values())[:4]:
            print('  failing input (%s): %s' % (v['kind'], v['message'][:400]))
        for o in open_obs[:6]:
            print('  failed obligation: %s: %s [%s] line %s' % (o['fn'], o['name'], o['status'], o['line']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif open_obs:
        path = '%s/%s-%d.json' % (rdir, prop, os.getpid())
        json.dump(dict(property=prop, failed_obligations=open_obs, undecided=vc.get('undecided')), open(path, 'w'), indent=1)
        for o in open_obs[:8]:
            print('  failed obligation: %s: %s [%s] line %s %s' % (o['fn'], o['name'], o['status'], o['line'], o.get('detail', '')[:150].replace('\n', ' ')))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    for u in vc.get('undecided', []):
        print('UNDECIDED: %s: %s' % (u['function'], u['reason'][:300]))
    errs = [h['error'] for h in hs if h.get('error')] + ([vc['error']] if vc.get('error') else [])
    for e in errs:
        print('CHECK-ERROR: %s' % e[-1200:])
    nob = len(vc.get('obligations', []))
    npr = nob - len(failed)
    # -------------------------------------------------------------- evidence
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], wall_s=round(time.time() - t0, 1), violations=len(fresh) + (1 if open_obs and not fresh else 0))
    per = {}
    for o in vc.get('obligations', []):
        per.setdefault(o['fn'], [0, 0])
        per[o['fn']][0] += 1
        per[o['fn']][1] += o['status'] == 'proved'
    ev['coverage'] = dict(
        obligations=nob, discharged=npr, checker_cmd='python3 check.py ' + prop,
        backends=vc.get('backends', {}), solver_s=vc.get('solver_s'), vc_generation_s=vc.get('gen_s'), vacuity_checks=vc.get('vacuity_checks'),
        functions_under_contract=[dict(f, discharged='%d/%d' % (per.get(f['function'], [0, 0])[1], per.get(f['function'], [0, 0])[0])) for f in vc.get('functions', [])],
        undecided=vc.get('undecided', []),
        open_obligations=[dict(fn=o['fn'], name=o['name'], status=o['status']) for o in failed],
        trusted_base=['clang 18 AST / CPython ast as the reading of the code', 'wodvc VC generator and its library models', 'z3, cvc5'] + vc.get('assumed', []) +
        ['callee contract assumed, not proved here: ' + t for t in vc.get('trusted', [])],
        evaluations=sum(h.get('evaluations', 0) for h in hs), distinct_nontrivial=sum(h.get('distinct_nontrivial', 0) for h in hs),
        rule='bounded runtime-contract evaluation (not counted as proof): ' + next((h.get('rule', '') for h in hs if h.get('rule')), ''),
        runtime_checks={k: sum(h.get('checks', {}).get(k, 0) for h in hs) for h0 in hs for k in h0.get('checks', {})},
        samples=next((h.get('samples') for h in hs if h.get('samples')), []),
        build_s=round(tb, 1), exhaustive=False)
    ev['assumptions'] = props.ASSUMPTIONS + cfg.get('assumptions', []) + vc.get('notes', [])
    edir = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open('%s/%s.json' % (edir, prop), 'w'), indent=1, default=repr)
    import shutil
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(work, ignore_errors=True)
    print('%s: %d/%d obligations discharged over %d functions (%d undecided), %d runtime evaluations, %.0f s' % (
        prop, npr, nob, len(vc.get('functions', [])), len(vc.get('undecided', [])), ev['coverage']['evaluations'], time.time() - t0))
    for l in lines:
        print(l)
    return rc


def replay(cfg, path):
    """re-executes the recorded driver calls of a replay file"""
    sys.path.insert(0, VERIF + '/harness')
    import h
    rep = json.load(open(path))
    d = h.Driver(build.driver(cfg['driver'])) if cfg.get('driver') else None
    for v in rep.get('violations', []):
        print(v['kind'], v['message'])
        print('  input:', json.dumps(v['input'])[:2000])
        for c in v.get('calls', []):
            try:
                r = d.raw([c[0].encode()] + [bytes.fromhex(x) for x in c[1:]])
                print('  %s -> %s' % (c[0], [x.hex()[:80] for x in r][:8]))
            except h.Abort as e:
                print('  %s -> %s' % (c[0], e))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('CHECK-ERROR: build failed: %s' % str(e)[-3000:])
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

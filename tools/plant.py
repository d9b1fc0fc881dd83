#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs and runs the property's check against them, in a scratch copy.

seeded/ID/patch.diff is applied to a copy of /repo under /tmp/plant; the demonstration must pass
without and fail with it; then check.py runs on the patched copy (VERIF_REPO)."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = '/tmp/plant'


def run(cmd, timeout=900, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def copy(name):
    d = '%s/%s' % (T, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(T, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def build(d, wb):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    rc, o = run(['/usr/bin/python3', '/opt/wod/gen.py', d + '/src', wb], env=e)
    if rc:
        return rc, o
    return run(['ninja', '--quiet', '-k', '0', '-C', wb], env=e)


def demo(i, d, wb):
    s = '%s/demo-%s' % (T, i)
    shutil.rmtree(s, ignore_errors=True)
    shutil.copytree(V + '/seeded/' + i, s, ignore=shutil.ignore_patterns('patch.diff', 'meta.json'))
    rc, o = run(['bash', s + '/demo.sh'], timeout=300, cwd=d, env=dict(os.environ, WOD_BUILD=wb, PYTHONDONTWRITEBYTECODE='1'))
    shutil.rmtree(s)
    return rc, o


def main():
    for i in sys.argv[1:]:
        meta = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        d = copy('r-' + i)
        wb = '%s/wb-%s' % (T, i)
        shutil.rmtree(wb, ignore_errors=True)
        cpp = '.cc' in open('%s/seeded/%s/patch.diff' % (V, i)).read() or '.h' in open('%s/seeded/%s/patch.diff' % (V, i)).read()
        out = [i, meta['property']]
        try:
            if cpp:
                rc, o = build(d, wb)
                if rc:
                    print('clean build', o[-800:])
            rc, o = demo(i, d, wb)
            out.append('demo clean %d' % rc)
            if rc:
                print(o[-1500:])
            rc, o = run(['git', '-C', d, 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
            if rc:
                print('apply', o)
                continue
            if cpp:
                rc, o = build(d, wb)
                out.append('build %d' % rc)
                if rc:
                    print(o[-1500:])
            rc, o = demo(i, d, wb)
            out.append('demo patched %d' % rc)
            if os.environ.get('SHOW'):
                print(o[-800:])
            if not cpp:
                rc, o = run(['bash', '-c', '. /opt/vp/env.sh; cd %s/src; $PY -m pytest -q -p no:cacheprovider waymo_open_dataset/metrics/python/rater_feedback_utils_test.py waymo_open_dataset/utils/compression/delta_encoder_test.py waymo_open_dataset/utils/plot_maps_test.py' % d], env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
                out.append('tests ' + (o.strip().splitlines() or ['?'])[-1])
            if os.environ.get('NOCHECK'):
                continue
            t = time.time()
            rc, o = run([sys.executable, V + '/check.py', meta['property']], env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD=T + '/build', VERIF_EVIDENCE=T, VERIF_TIER='quick', VERIF_SEED='1'))
            vio = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            out.append('check rc %d in %.0fs %s' % (rc, time.time() - t, vio[:1]))
            print('\n'.join(l[:300] for l in o.splitlines()[-12:]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(wb, ignore_errors=True)
            print('PLANT', ' | '.join(out), flush=True)


main()

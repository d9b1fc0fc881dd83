#!/usr/bin/env python3
"""tools/vc.py PROP: only generates and discharges the obligations (development aid)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from fw import build, props
p = sys.argv[1]
if len(sys.argv) > 2:
    os.environ['VERIF_ONLY'] = sys.argv[2]
cfg = props.PROPS[p]
d = build.ccdir()
ext = build.extractor() if cfg.get('tus') else None
irs = [build.ir(t, d, ext) for t in cfg.get('tus', [])]
b = '/tmp/vc-%s.json' % p
json.dump(dict(ir=irs, protos=build.protos() + '/protos.json', pytree=build.pytree(), src=build.SRC), open(b, 'w'))
t = time.time()
r = subprocess.run(['python3-vt', '-m', 'wodvc.run', p, b, '/tmp/vc-out-%s.json' % p], cwd=V, env=dict(os.environ, VERIF_DEBUG=os.environ.get('VERIF_DEBUG', '')))
print('prover exit', r.returncode) if r.returncode else None
o = json.load(open('/tmp/vc-out-%s.json' % p))
if o.get('error'):
    print(o['error'])
for u in o['undecided']:
    print('UNDECIDED', u['function'], u['reason'][:300])
ok = 0
for x in o['obligations']:
    ok += x['status'] == 'proved'
    if x['status'] != 'proved' or os.environ.get('ALL'):
        print(x['status'], x['fn'], '|', x['name'], '| line', x['line'], x['kind'], x['backend'], x['secs'], x.get('detail', '')[:100].replace('\n', ' '))
print('%s: %d/%d proved, %d fns, %d undecided, gen %.1f solver %.1f wall %.1f' % (p, ok, len(o['obligations']), len(o['functions']), len(o['undecided']), o['gen_s'], o['solver_s'], time.time() - t))
print('assumed', o['assumed'], 'trusted', o['trusted'])

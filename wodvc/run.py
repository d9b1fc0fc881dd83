"""python3-vt -m wodvc.run PROP BUILD.json OUT.json: generates and discharges the obligations of one property."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import time
import traceback
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from wodvc import cxx, py, solve                                   # noqa: E402
from wodvc.cxxsorts import Unsupported                         # noqa: E402
from wodvc.cxxmodels import Contract                           # noqa: E402

NS = 'waymo::open_dataset::'
ANON = 'waymo::open_dataset::(anonymous namespace)::'


class Suite:
    def __init__(self, build):
        self.build = build
        self.P = None
        self.PP = None
        self.obs = []
        self.fns = []
        self.undecided = []
        self.leans = []
        self.assumed = set()
        self.trusted = set()
        self.verified_contracts = set()
        self.used_contracts = set()
        self.gen_t = 0.0
        self.only = os.environ.get('VERIF_ONLY')

    # ---- C++
    def program(self):
        if self.P is None:
            irs = [json.load(open(p)) for p in self.build['ir']]
            pj = json.load(open(self.build['protos']))
            self.P = cxx.Program(irs, pj['messages'], pj['enums'])
        return self.P

    def engine(self, **opts):
        return cxx.Engine(self.program(), opts)

    def fn(self, qual, label=None, nparams=None, sig=None, E=None, opts=None, contracts=None, **kw):
        """verifies one function; kw: requires, ensures, loops, callees, ...  Functions of E (the engine)
        are passed as callables taking E first when they have attribute 'wants_engine'."""
        label = label or qual.replace(NS, '').replace('(anonymous namespace)::', '')
        if self.only and self.only not in label:
            return None
        t = time.time()
        rec = dict(function=label, status='ok')
        self.fns.append(rec)
        try:
            f = self.program().find(qual, nparams, sig)
            E = E or self.engine(**(opts or {}))
            if callable(kw.get('callees')):
                kw['callees'] = kw['callees'](E)
            for k in ('requires', 'ensures'):
                if k in kw and kw[k] is not None:
                    kw[k] = self.bind(kw[k], E)
            if kw.get('loops'):
                kw['loops'] = {i: self.bind(g, E) for i, g in kw['loops'].items()}
            obs = E.verify(f, name=label, **kw)
            rec.update(file=os.path.relpath(f['file'], '/') if f['file'].startswith('/') else f['file'], line=f['line'],
                       obligations=len(obs), trivial=E.trivial)
            if not obs and not E.trivial:
                raise Unsupported('no obligation was generated (vacuous)')
            self.obs += obs
            self.obs += self.vacuity(E, label)
            self.assumed |= set(E.assumed)
            self.used_contracts |= set(E.contract_uses)
            self.verified_contracts.add(qual)
        except (Unsupported, cxx.BindError, cxx.Unmergeable, cxx.Dead, KeyError, AttributeError, z3.Z3Exception, IndexError, TypeError, RecursionError) as e:
            rec.update(status='undecided', reason='%s: %s' % (type(e).__name__, str(e)[:400]))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.undecided.append(rec)
        rec['gen_s'] = round(time.time() - t, 2)
        self.gen_t += time.time() - t
        return rec

    def pyfn(self, mod, qual, params, label=None, opts=None, **kw):
        """verifies one Python function of the module file mod"""
        label = label or qual
        if self.only and self.only not in label:
            return None
        t = time.time()
        rec = dict(function=label, status='ok')
        self.fns.append(rec)
        try:
            if self.PP is None:
                self.PP = py.PyProgram(self.build['src'], json.load(open(self.build['protos'])))
            E = py.Engine(self.PP, opts)
            obs = E.verify(mod, qual, label, params, **kw)
            rec.update(file=mod, line=self.PP.mod(mod).find(qual).lineno, obligations=len(obs), trivial=E.trivial)
            if not E.nret:
                raise Unsupported('no path of the function was analysed')
            ax = E.S.str_axioms()
            for o in obs:
                o.hyps = o.hyps + ax
            self.obs += obs
            for facts, path in E.finals[:1]:
                self.obs.append(cxx.Ob('vacuity: end of %s is reachable' % label, facts + path + ax, z3.BoolVal(False), 'vacuity', None, label))
            self.assumed |= E.assumed
            self.used_contracts |= {mod + ':' + c for c in getattr(E, 'contract_uses', ())}
            self.verified_contracts.add(mod + ':' + qual)
        except (Unsupported, py.BindError, KeyError, AttributeError, z3.Z3Exception, IndexError, TypeError, RecursionError, AssertionError, py.EmptyElem) as e:
            rec.update(status='undecided', reason='%s: %s' % (type(e).__name__, str(e)[:400]))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.undecided.append(rec)
        rec['gen_s'] = round(time.time() - t, 2)
        self.gen_t += time.time() - t
        return rec

    def bind(self, f, E):
        if f is None:
            return None
        n = f.__code__.co_varnames[:f.__code__.co_argcount]
        if n and n[0] == 'E':
            return lambda *a: f(E, *a)
        return f

    def vacuity(self, E, label):
        """hypotheses at the function's end must not be contradictory: this obligation must NOT be provable"""
        r = []
        for (st, v) in (E.final or [])[:1]:
            o = cxx.Ob('vacuity: end of %s is reachable' % label, list(E.facts) + list(st.path) + list(E.axioms), z3.BoolVal(False), 'vacuity', None, label)
            r.append(o)
        return r

    def lemma(self, name, hyps, goal):
        if self.only and self.only not in name:
            return
        self.obs.append(cxx.Ob('lemma:' + name, list(hyps), goal, 'lemma', None, 'lemma'))

    def lean(self, fname, what):
        """lemmas proved in Lean: the file must compile without any message"""
        if self.only and self.only not in fname:
            return
        exe = shutil.which('lean') or '/app/lean4-4.33.0/build/release/stage1/bin/lean'
        p = subprocess.Popen(['timeout', '300', exe, os.path.join(VERIF, 'lean', fname)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.leans.append((fname, what, p, time.time()))

    def ob(self, fn, name, hyps, goal, kind='ensures', line=None):
        self.obs.append(cxx.Ob(name, list(hyps), goal, kind, line, fn))


def main():
    prop, bfile, out = sys.argv[1:4]
    build = json.load(open(bfile))
    t0 = time.time()
    res = dict(property=prop)
    S = Suite(build)
    try:
        spec = importlib.util.spec_from_file_location('contracts_' + prop, os.path.join(VERIF, 'contracts', prop.lower() + '.py'))
        m = importlib.util.module_from_spec(spec)
        sys.path.insert(0, os.path.join(VERIF, 'contracts'))
        spec.loader.exec_module(m)
        m.build(S)
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    t1 = time.time()
    main_obs = [o for o in S.obs if o.kind != 'vacuity']
    vac = [o for o in S.obs if o.kind == 'vacuity']
    rs = solve.discharge(main_obs, scale=float(build.get('scale', 1)), deep=True)
    vs = solve.discharge_quick(vac)
    out_obs = []
    backends = {}
    for r in rs:
        d = dict(fn=r.ob.fn, name=r.ob.name, line=r.ob.line, kind=r.ob.kind, status=r.status, backend=r.backend, secs=round(r.secs, 3))
        if r.status != 'proved':
            d['detail'] = r.detail[:600]
            d['model'] = r.model[:4000]
        else:
            backends[r.backend] = backends.get(r.backend, 0) + 1
        out_obs.append(d)
    for fname, what, p, t in S.leans:
        txt = p.communicate()[0]
        if p.returncode == 0 and not txt.strip():
            out_obs.append(dict(fn='lemma', name='lean:%s: %s' % (fname, what), line=None, kind='lemma', status='proved', backend='lean', secs=round(time.time() - t, 3)))
            backends['lean'] = backends.get('lean', 0) + 1
        else:
            S.undecided.append(dict(function=fname, status='undecided', reason='lean: rc %s %s' % (p.returncode, txt[:300])))
    for r in vs:
        if r.status == 'proved':
            S.undecided.append(dict(function=r.ob.fn, status='undecided', reason='vacuous: hypotheses at the end of the function are contradictory'))
    res.update(obligations=out_obs, functions=S.fns, undecided=S.undecided, assumed=sorted(S.assumed),
               trusted=sorted(set(S.used_contracts) - set(S.verified_contracts)), backends=backends,
               vacuity_checks=len(vs), gen_s=round(t1 - t0, 2), solver_s=round(sum(r.secs for r in rs), 2), wall=round(time.time() - t0, 2),
               notes=getattr(m, 'NOTES', []) if 'm' in dir() else [])
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()

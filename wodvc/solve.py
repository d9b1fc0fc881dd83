"""Discharges obligations with the installed SMT solvers, in parallel."""
import os
import re
import subprocess
import tempfile
import time
import threading
from concurrent.futures import ThreadPoolExecutor
import z3

Z3 = 'z3-new'
CVC5 = 'cvc5'


# names the solvers would take for their own functions (z3 turns a declared sin into its built-in one)
BUILTIN = r'(?<=[ (])(sqrt|sin|cos|tan|asin|acos|atan|exp|pi)(?=[ )])'


def to_smt2(hyps, goal, axioms=()):
    c = z3.Context()                       # numbered anew: the text does not depend on what was built before
    s = z3.Solver(ctx=c)
    for h in list(hyps) + [z3.Not(goal)]:
        s.add(h.translate(c))
    return re.sub(BUILTIN, r'u_\1', s.to_smt2())


def run(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        n = f.name
    t = time.time()
    try:
        r = subprocess.run(cmd + [n], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(n)
    first = out.strip().split('\n')[0] if out.strip() else ''
    return first, out, time.time() - t


def consts_only(text):
    # cvc5 wants a logic
    return '(set-logic ALL)\n' + '\n'.join(l for l in text.split('\n') if not l.startswith('(set-info') and not l.startswith('; '))


STAGES = [
    ('z3', lambda t: [Z3, '-T:%d' % t, 'smt.random_seed=1'], 3),
    ('z3/auto_config=false', lambda t: [Z3, '-T:%d' % t, 'auto_config=false', 'smt.mbqi=false', 'smt.random_seed=2'], 4),
    ('cvc5', lambda t: [CVC5, '--tlimit=%d' % (t * 1000), '--lang=smt2'], 6),
    ('z3/arith2', lambda t: ['/usr/bin/z3', '-T:%d' % t, 'smt.arith.solver=2', 'smt.random_seed=7'], 5),
    ('z3/long', lambda t: [Z3, '-T:%d' % t, 'smt.random_seed=3'], 20),
    ('cvc5/long', lambda t: [CVC5, '--tlimit=%d' % (t * 1000), '--lang=smt2', '--enum-inst'], 20),
]


class Result:
    def __init__(self, ob, status, backend, secs, detail='', model=''):
        self.ob, self.status, self.backend, self.secs, self.detail, self.model = ob, status, backend, secs, detail, model


def prove_one(text, scale=1.0, deep=True, stages=None):
    total = 0
    sat = None
    errs = []
    for name, cmd, t in (stages or STAGES):
        if not deep and name.endswith('/long'):
            continue
        t = max(1, int(t * scale))
        first, out, dt = run(cmd(t), consts_only(text) if name.startswith('cvc5') else text, t)
        total += dt
        if first == 'unsat':
            return 'proved', name, total, ''
        if first == 'sat':
            return 'refuted', name, total, out
        errs.append('%s: %s' % (name, first[:100]))
    return 'unknown', 'none', total, '; '.join(errs)


def split(goal, path=()):
    """conjuncts of a goal under its implications"""
    if z3.is_and(goal):
        r = []
        for c in goal.children():
            r += split(c, path)
        return r
    if z3.is_implies(goal):
        return split(goal.arg(1), path + (goal.arg(0),))
    return [(path, goal)]


def model_of(text, timeout=5):
    t2 = text.replace('(check-sat)', '(check-sat)\n(get-model)')
    first, out, dt = run([Z3, '-T:%d' % timeout], t2, timeout)
    return out if first == 'sat' else ''


def discharge(obs, jobs=None, scale=1.0, deep=True, want_models=True):
    jobs = jobs or os.cpu_count() or 4
    tasks = []
    for o in obs:
        parts = split(o.goal)
        texts = [to_smt2(list(o.hyps) + list(p), g) for p, g in parts]
        tasks.append((o, texts))

    def work(t):
        o, texts = t
        secs, be = 0.0, []
        for x in texts:
            st, b, dt, det = prove_one(x, scale, deep)
            secs += dt
            be.append(b)
            if st != 'proved':
                m = model_of(x) if st == 'refuted' and want_models else ''
                return Result(o, st, b, secs, det, m)
        return Result(o, 'proved', '+'.join(sorted(set(be))), secs)
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(work, tasks))
    if deep:
        # a busy machine: what ran out of time is tried again, longer and with less going on
        end = time.time() + RETRY
        open_ = [i for i, r in enumerate(rs) if r.status == 'unknown']
        if len(open_) <= 12:
            with ThreadPoolExecutor(max(1, jobs // len(LAST))) as ex:
                for i, ok in zip(open_, ex.map(lambda i: again(tasks[i][1], end), open_)):
                    if ok:
                        rs[i] = Result(rs[i].ob, 'proved', 'portfolio', rs[i].secs + ok)
    return rs


RETRY = 150
LAST = [lambda t: [Z3, '-T:%d' % t, 'smt.random_seed=11'],
        lambda t: [Z3, '-T:%d' % t, 'auto_config=false', 'smt.mbqi=false', 'smt.random_seed=12'],
        lambda t: ['/usr/bin/z3', '-T:%d' % t, 'smt.random_seed=13'],
        lambda t: [CVC5, '--tlimit=%d' % (t * 1000), '--lang=smt2']]


def again(texts, end):
    t0 = time.time()
    for x in texts:
        left = int(min(60, end - time.time()))
        if left < 5:
            return 0
        with ThreadPoolExecutor(len(LAST)) as ex:
            fs = [ex.submit(run, c(left), consts_only(x) if c(1)[0] == CVC5 else x, left) for c in LAST]
            if not any(f.result()[0] == 'unsat' for f in fs):
                return 0
    return time.time() - t0


def discharge_quick(obs, jobs=None, secs=2):
    """one short attempt (used for obligations that must not be provable)"""
    jobs = jobs or os.cpu_count() or 4

    texts = [(o, to_smt2(o.hyps, o.goal)) for o in obs]

    def work(p):
        o, text = p
        first, out, dt = run([Z3, '-T:%d' % secs], text, secs)
        return Result(o, 'proved' if first == 'unsat' else 'open', 'z3', dt, '')
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(work, texts))

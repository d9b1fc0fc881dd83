"""Runtime-contract harness: evaluates the contracts on the real, compiled code.

Run as:  /opt/venv/bin/python harness/h.py PROP OUT.json BUDGET SEED [DRIVER] ROUND
Bounded by construction; it supplies failing inputs and is never counted as proof."""
import hashlib
import importlib.util
import json
import os
import random
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback


class Abort(Exception):
    pass


class D(list):
    """a list sent as doubles"""


class I(list):
    """a list sent as int32"""


def enc(a):
    if isinstance(a, bytes):
        return a
    if isinstance(a, bool) or isinstance(a, int):
        return struct.pack('<i', int(a))
    if isinstance(a, float):
        return struct.pack('<d', a)
    if isinstance(a, I):
        return struct.pack('<%di' % len(a), *[int(x) for x in a])
    if isinstance(a, (list, tuple)):
        return struct.pack('<%dd' % len(a), *a)
    return a.SerializePartialToString()


def dd(b):
    return list(struct.unpack('<%dd' % (len(b) // 8), b))


def ii(b):
    return list(struct.unpack('<%di' % (len(b) // 4), b))


def x1(b):
    return struct.unpack('<d', b)[0]


def n1(b):
    return struct.unpack('<i', b)[0]


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


class Driver:
    def __init__(self, path):
        self.path, self.p, self.log, self.calls = path, None, [], 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ, GLOG_logtostderr='1', GLOG_minloglevel='2')
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd='/tmp')

    def raw(self, args):
        if self.p is None:
            self.start()
        buf = struct.pack('<I', len(args)) + b''.join(struct.pack('<I', len(a)) + a for a in args)
        try:
            self.p.stdin.write(buf)
            self.p.stdin.flush()
            h = self.p.stdout.read(4)
            if len(h) < 4:
                raise BrokenPipeError
            r = []
            for _ in range(struct.unpack('<I', h)[0]):
                l = struct.unpack('<I', self.p.stdout.read(4))[0]
                r.append(self.p.stdout.read(l))
            return r
        except (BrokenPipeError, struct.error, OSError):
            rc = self.p.wait()
            self.err.seek(0, 2)
            n = self.err.tell()
            self.err.seek(max(0, n - 3000))
            t = self.err.read().decode('utf8', 'replace')
            self.p = None
            if rc in (2, 3):
                raise RuntimeError('driver protocol error: ' + t)
            lines = [l for l in t.split('\n') if ('Check failed' in l or 'FATAL' in l or 'rror' in l or l.startswith('F')) and ' I tensorflow' not in l]
            raise Abort('driver ended with status %d: %s' % (rc, (lines or [t[-300:]])[0][:300]))

    def call(self, op, *args):
        a = [op.encode()] + [enc(x) for x in args]
        self.log.append([op] + [x.hex() for x in a[1:]])
        self.calls += 1
        return self.raw(a)


class H:
    def __init__(self, prop, budget, seed, driver, rnd=0):
        self.prop, self.budget, self.seed, self.round = prop, budget, seed, rnd
        self.r = random.Random('%s/%d/%d' % (prop, seed, rnd))
        self.d = Driver(driver) if driver else None
        self.t0 = time.time()
        self.evals, self.seen, self.viol, self.samples = 0, set(), {}, []
        self.checks = {}
        self.cur = None
        self.rule = ''
        self.allow_abort = False

    def call(self, op, *a):
        return self.d.call(op, *a)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def frac(self):
        return (time.time() - self.t0) / self.budget

    def case(self, desc, key=None, nontrivial=True):
        """starts a case; desc is a JSON-able description (or a callable giving it)"""
        self.evals += 1
        self.cur = desc
        if self.d:
            self.d.log = []
        if nontrivial:
            k = key if key is not None else desc() if callable(desc) else desc
            self.seen.add(hashlib.sha1(repr(k).encode()).digest()[:8])
        if len(self.samples) < 3 and nontrivial and self.evals > 3:
            self.samples.append(desc() if callable(desc) else desc)

    def check(self, kind, ok, msg=''):
        self.checks[kind] = self.checks.get(kind, 0) + 1
        if not ok:
            self.fail(kind, msg() if callable(msg) else msg)
        return ok

    def fail(self, kind, msg):
        if kind in self.viol:
            self.viol[kind]['count'] += 1
            return
        self.viol[kind] = dict(kind=kind, message=str(msg)[:2000], count=1, input=self.cur() if callable(self.cur) else self.cur,
                               calls=list(self.d.log) if self.d else [], seed=self.seed, round=self.round)

    def phases(self, *fns):
        """runs each phase for its share of the budget: (weight, fn); fn runs one batch/case per call"""
        tot = sum(w for w, _ in fns)
        for w, f in fns:
            end = time.time() + self.budget * w / tot
            n = 0
            while time.time() < end or n == 0:
                n += 1
                try:
                    if f() is False:
                        break
                except Abort as e:
                    self.fail('abort:' + f.__name__, 'the code aborted on an input inside its contract: %s' % e)
                except (RuntimeError, MemoryError):
                    raise
                if any(v['count'] > 200 for v in self.viol.values()):
                    break


def main():
    prop, out, budget, seed, driver, rnd = sys.argv[1:7]
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.modules['h'] = sys.modules['__main__']
    spec = importlib.util.spec_from_file_location('harness_' + prop, os.path.join(here, prop.lower() + '.py'))
    m = importlib.util.module_from_spec(spec)
    h = H(prop, float(budget), int(seed), driver if driver != '-' else None, int(rnd))
    res = {}
    try:
        spec.loader.exec_module(m)
        m.run(h)
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    res.update(evaluations=h.evals, distinct_nontrivial=len(h.seen), rule=getattr(m, 'RULE', h.rule), samples=h.samples,
               checks=h.checks, violations=list(h.viol.values()), wall=time.time() - h.t0)
    with open(out, 'w') as f:
        json.dump(res, f, default=lambda o: repr(o))


if __name__ == '__main__':
    main()

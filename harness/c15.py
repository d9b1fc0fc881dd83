"""C15: the motion metrics of single scenarios, their accumulation and the precision-recall area recomputed from their definitions."""
import math
import struct
from h import n1, x1, dd, ii, I
import geo
import mo
from waymo_open_dataset.protos import motion_metrics_pb2 as mp, scenario_pb2 as sc

RULE = 'random configurations, scenarios with 1-5 moving objects (gaps in validity, all sizes of predictions, noise from 0 to 2 m), accumulated in random orders; random precision-recall samples with ties; random tracks for the motion types'
TRANK = {0: 0, 1: 1, 3: 2, 2: 3, 7: 4, 5: 5, 4: 6, 6: 7}
ORANK = {0: 0, 4: 1, 1: 2, 2: 3, 3: 4}
EPS = 1e-5


class Near(Exception):
    """a quantity lies on a decision boundary"""


def f4(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def cls(h, t):
    """motion type, None when undefined"""
    last = [k for k in range(h + 1, len(t.states)) if t.states[k].valid]
    if not last or not t.states[h].valid:
        return None
    a, b = t.states[h], t.states[last[-1]]
    dx, dy = b.center_x - a.center_x, b.center_y - a.center_y
    c, s = math.cos(a.heading), math.sin(a.heading)
    lon, lat = c * dx + s * dy, -s * dx + c * dy
    turn = math.remainder(b.heading - a.heading, 2 * math.pi)
    v = max(math.hypot(q.velocity_x, q.velocity_y) for q in (a, b))
    d = math.hypot(dx, dy)
    near = lambda x, y: abs(x - y) < EPS
    if near(v, 2) or near(d, 3) or near(abs(turn), math.pi / 6) or near(abs(turn), math.pi) and False:
        raise Near()
    if v < 2 and d < 3:
        return 0
    if abs(turn) < math.pi / 6:
        if near(abs(lat), 2.5):
            raise Near()
        return 1 if abs(lat) < 2.5 else 3 if lat < 0 else 2
    if near(lat, 0) or near(lon, 0):
        raise Near()
    if lat < 0:
        return 6 if lon < 0 else 7
    return 4 if lon < 0 else 5


class One:
    """all metrics of one multimodal prediction"""
    def __init__(self, c, s, m):
        self.c, self.s, self.m = c, s, m
        self.tr = {t.id: t for t in s.tracks}
        self.ratio = c.track_steps_per_second // c.prediction_steps_per_second
        self.ev = list(m.joint_predictions)[:c.max_predictions]

    def truth(self, t, k):
        return self.tr[t.object_id].states[(k + 1) * self.ratio + self.c.track_history_samples]

    def err(self, t, k):
        q = self.truth(t, k)
        return math.hypot(t.center_x[k] - q.center_x, t.center_y[k] - q.center_y) if q.valid else None

    def ade(self, j, k, final):
        out = []
        for t in j.trajectories:
            e = [x for x in (self.err(t, q) for q in ([k] if final else range(k + 1))) if x is not None]
            if not e:
                return None
            out.append(sum(e) / len(e))
        return sum(out) / len(out)

    def smallest(self, k, final):
        v = [x for x in (self.ade(j, k, final) for j in self.ev) if x is not None]
        return min(v) if v else None

    def match(self, j, st):
        k = st.measurement_step
        c = self.c
        hit = True
        if any(not self.truth(t, k).valid for t in j.trajectories):
            return None
        for t in j.trajectories:
            q = self.truth(t, k)
            z = self.tr[t.object_id].states[c.track_history_samples]
            v = math.hypot(z.velocity_x, z.velocity_y)
            lo, hi = c.speed_lower_bound, c.speed_upper_bound
            f = min(max((v - lo) / (hi - lo), 0.0), 1.0)
            sc_ = c.speed_scale_lower + (c.speed_scale_upper - c.speed_scale_lower) * f
            dx, dy = t.center_x[k] - q.center_x, t.center_y[k] - q.center_y
            co, si = math.cos(q.heading), math.sin(q.heading)
            lon, lat = co * dx + si * dy, -si * dx + co * dy
            for e, th in ((lat, st.lateral_miss_threshold), (lon, st.longitudinal_miss_threshold)):
                if abs(abs(e) - th * sc_) < EPS:
                    raise Near()
                hit = hit and abs(e) <= th * sc_
        return hit

    def miss(self, st):
        v = [x for x in (self.match(j, st) for j in self.ev) if x is not None]
        return None if not v else 0.0 if any(v) else 1.0

    def box(self, t, k):
        n = len(t.center_x)
        if n < 2:
            return []
        ang = lambda a, b: math.atan2(f4(t.center_y[b]) - t.center_y[a], t.center_x[b] - t.center_x[a])
        if k == 0:
            h = ang(0, 1)
        elif k == n - 1:
            h = ang(k - 1, k)
        else:
            a, b = ang(k, k + 1), ang(k - 1, k)
            x, y = math.cos(a) + math.cos(b), math.sin(a) + math.sin(b)
            if math.hypot(x, y) < 1e-6:
                raise Near()
            h = math.atan2(y, x)
        q = self.truth(t, k)
        return geo.corners(t.center_x[k], t.center_y[k], h, q.length, q.width)

    def overlap(self, k):
        best = max(range(len(self.ev)), key=lambda q: (self.ev[q].confidence, -q))
        hit = False
        for t in self.ev[best].trajectories:
            for step in range(k + 1):
                a = self.box(t, step)
                for o in self.s.tracks:
                    if o.id == t.object_id or not o.states[self.c.track_history_samples].valid:
                        continue
                    q = o.states[(step + 1) * self.ratio + self.c.track_history_samples]
                    if not q.valid or not a:
                        continue
                    b = geo.corners(q.center_x, q.center_y, q.heading, q.length, q.width)
                    i = geo.inter(a, b)
                    if 0 < i < 1e-6:
                        raise Near()
                    hit = hit or i > 0
        return 1.0 if hit else 0.0

    def bucket(self):
        v = [cls(self.c.track_history_samples, self.tr[t.object_id]) for t in self.m.joint_predictions[0].trajectories]
        v = [x for x in v if x is not None]
        if not v:
            return None
        t = max(v, key=lambda q: TRANK[q])
        return 7 if t == 6 else t

    def samples(self, st, soft):
        out, found, n = [], False, 0
        for j in sorted(self.ev, key=lambda q: -q.confidence):
            x = self.match(j, st)
            if x is None:
                continue
            n = 1
            if not (soft and x and found):
                out.append((j.confidence, bool(x and not found)))
            found = found or x
        return out, n

    def type(self):
        return max((self.tr[t.object_id].object_type for t in self.m.joint_predictions[0].trajectories), key=lambda q: ORANK[q])


def area(samples, n):
    """area under the interpolated precision-recall curve: precision at recall r is the highest at any recall >= r"""
    if not samples:
        return 0.0
    v = sorted(samples, key=lambda q: (-q[0], q[1]))
    tp, pts = 0, []
    for k, (_, hit) in enumerate(v):
        tp += hit
        pts.append((tp / n, tp / (k + 1)))
    out, prev = 0.0, 0.0
    for k, (r, _) in enumerate(pts):
        out += (r - prev) * max(p for _, p in pts[k:])
        prev = r
    return out


def stats(c, p, s):
    """(type, step) -> sums; and the samples of both kinds per bucket"""
    out = {}
    for m in p.multi_modal_predictions:
        if not len(m.joint_predictions) or not len(m.joint_predictions[0].trajectories):
            continue
        o = One(c, s, m)
        for st in c.step_configurations:
            k = st.measurement_step
            d = out.setdefault((o.type(), k), dict(v=[0.0] * 8, soft={}, hard={}))
            for q, x in enumerate((o.smallest(k, False), o.smallest(k, True), o.miss(st), o.overlap(k))):
                if x is not None:
                    d['v'][2 * q] += x
                    d['v'][2 * q + 1] += 1
            b = o.bucket()
            if b is not None:
                for w in ('hard', 'soft'):
                    z, n = o.samples(st, w == 'soft')
                    e = d[w].setdefault(b, [[], 0])
                    e[0] += z
                    e[1] += n
    return out


def mapm(bs):
    v = [area(z, n) for z, n in bs.values() if z]
    return sum(v) / len(v) if v else 0.0


def merge(parts):
    tot = {}
    for p in parts:
        for k, d in p.items():
            t = tot.setdefault(k, dict(v=[0.0] * 8, soft={}, hard={}))
            t['v'] = [a + b for a, b in zip(t['v'], d['v'])]
            for w in ('hard', 'soft'):
                for b, (z, n) in d[w].items():
                    e = t[w].setdefault(b, [[], 0])
                    e[0] += z
                    e[1] += n
    return tot


def final(d):
    mean = lambda a, n: a / n if n else 0.0
    v = d['v']
    return [mean(v[0], v[1]), mean(v[2], v[3]), mean(v[4], v[5]), mean(v[6], v[7]), mapm(d['hard']), mapm(d['soft'])]


def close(a, b, tol=2e-4):
    return abs(a - b) <= tol * (1 + abs(b))


def run(H):
    r = H.r

    def world(sid='s', c=None):
        c = c or mo.config(r)
        n = r.randrange(1, 6)
        ids = r.sample([1, 2, 3, 4, 5, 17, -3, 0], n)
        s = mo.scenario(r, c, ids, types=(0, 1, 2, 3, 4) if r.random() < .3 else (1, 2, 3), spread=r.choice([4.0, 12.0, 40.0]), required=sorted(r.sample(range(n), r.randrange(1, n + 1))), sid=sid)
        used = set()

        def conf():
            while True:
                x = f4(r.choice([.1, .2, .5, 1.0, r.random(), r.random(), 5.0]))
                if x not in used:
                    used.add(x)
                    return x
        p = mo.predictions(r, c, s, mo.groups(r, [q.track_index for q in s.tracks_to_predict]), sid=sid, conf=conf)
        if r.random() < .1:
            for m in p.multi_modal_predictions:
                del m.joint_predictions[1:]
                for j in m.joint_predictions:
                    j.confidence = 0.0
        return c, p, s

    def show(c, p, s):
        return 'config {%s}; tracks %s; predictions %s' % (str(c).replace('\n', ' '), [(t.id, t.object_type, [(round(q.center_x, 3), round(q.center_y, 3), round(q.heading, 3), round(math.hypot(q.velocity_x, q.velocity_y), 3), q.valid) for q in t.states]) for t in s.tracks],
            [[(round(j.confidence, 4), [(t.object_id, [round(x, 3) for x in t.center_x], [round(x, 3) for x in t.center_y]) for t in j.trajectories]) for j in m.joint_predictions] for m in p.multi_modal_predictions])

    def buckets(v):
        out, q = [], 1
        for _ in range(int(v[0])):
            n, k = int(v[q]), int(v[q + 1])
            out.append((n, [(v[q + 2 + 2 * i], bool(v[q + 3 + 2 * i])) for i in range(k)]))
            q += 2 + 2 * k
        return out

    NAMES = ('min ADE', 'min FDE', 'miss rate', 'overlap rate')

    def single():
        c, p, s = world()
        try:
            want = stats(c, p, s)
        except Near:
            return
        H.case(lambda: dict(case=show(c, p, s), expected={str(k): d['v'] for k, d in want.items()}), key=(H.round, H.evals), nontrivial=any(d['v'][1] for d in want.values()))
        out = H.call('stats', c, p, s)
        if not H.check('accepted', bool(n1(out[0])), lambda: 'a valid scenario is rejected: ' + show(c, p, s)):
            return
        got = {}
        for q in range(1, len(out), 4):
            got[tuple(ii(out[q]))] = (dd(out[q + 1]), buckets(dd(out[q + 2])), buckets(dd(out[q + 3])))
        if not H.check('types and steps', set(got) == set(want), lambda: 'statistics for (type, step) %s, expected %s: %s' % (sorted(got), sorted(want), show(c, p, s))):
            return
        for k, d in want.items():
            v, hard, soft = got[k]
            for q, nm in enumerate(NAMES):
                H.check(nm, v[2 * q + 1] == d['v'][2 * q + 1] and close(v[2 * q], d['v'][2 * q]), lambda: '%s of type %s step %s is %s/%s, expected %s/%s: %s' % (nm, k[0], k[1], v[2 * q], v[2 * q + 1], d['v'][2 * q], d['v'][2 * q + 1], show(c, p, s)))
            for w, b in (('hard', hard), ('soft', soft)):
                norm = lambda l: [(round(a, 6), t) for a, t in l]
                have = {i: (n, norm(l)) for i, (n, l) in enumerate(b) if l or n}
                need = {i: (n, norm(l)) for i, (l, n) in d[w].items() if l or n}
                H.check('samples', have == need, lambda: '%s mAP samples of type %s step %s: %s, expected %s: %s' % (w, k[0], k[1], have, need, show(c, p, s)))

    def several():
        n = r.choice([1, 2, 3, 4])
        c = mo.config(r)
        w = [world('s%d' % q, c) for q in range(n)]
        try:
            parts = [stats(c, p, s) for c, p, s in w]
        except Near:
            return
        order = list(range(n))
        r.shuffle(order)
        P, Sx = [x[1] for x in w], [x[2] for x in w]
        what = lambda: ' || '.join(show(c, p, s) for c, p, s in w)
        H.case(lambda: dict(case=what(), order=order), key=(H.round, H.evals), nontrivial=n > 1)
        out = H.call('accum', c, I(order), n, *P, *Sx)
        if not H.check('accepted', bool(n1(out[0])), lambda: 'a valid scenario is rejected: ' + what()):
            return
        tot = merge(parts)
        m2 = mp.MotionMetrics.FromString(H.call('metrics', c, n, *P, *Sx)[1])
        fields = ('min_ade', 'min_fde', 'miss_rate', 'overlap_rate', 'mean_average_precision', 'soft_mean_average_precision')
        for nm, m in (('accumulated in order %s' % order, mp.MotionMetrics.FromString(out[2])), ('of the whole set', m2)):
            got = {(b.object_filter, b.measurement_step): [getattr(b, f) for f in fields] for b in m.metrics_bundles}
            H.check('bundles', set(got) == set(tot) and len(got) == len(m.metrics_bundles), lambda: 'metrics %s: bundles %s, expected %s: %s' % (nm, sorted(got), sorted(tot), what()))
            for k in set(got) & set(tot):
                want = final(tot[k])
                for f, a, b in zip(fields, got[k], want):
                    H.check(f, close(a, b), lambda: 'metrics %s: %s of type %s step %s is %s, expected %s: %s' % (nm, f, k[0], k[1], a, b, what()))
                H.check('range', all(0 <= x <= 1 + 1e-9 for x in got[k][2:]), lambda: 'metrics %s: rates %s outside [0, 1]' % (nm, got[k]))
        steps = {}
        for (t, k), d in tot.items():
            steps.setdefault(k, []).append({0: d})
        v = dd(out[1])
        rows = {int(v[q]): v[q + 1:q + 7] for q in range(0, len(v), 7)}
        H.check('steps across types', set(rows) == set(steps), lambda: 'steps across types %s, expected %s: %s' % (sorted(rows), sorted(steps), what()))
        for k in set(rows) & set(steps):
            want = final(merge(steps[k])[0])
            H.check('across types', all(close(a, b) for a, b in zip(rows[k], want)), lambda: 'across types at step %s: %s, expected %s: %s' % (k, rows[k], want, what()))

    def pr():
        n = r.choice([0, 1, 2, 3, 5, 9, 20])
        v = [(f4(r.choice([.1, .5, .9, r.random()])), r.random() < r.choice([.2, .5, .9])) for _ in range(n)]
        num = max(1, sum(t for _, t in v) + r.choice([0, 0, 1, 5]))
        H.case(lambda: dict(samples=v, ground_truth=num), key=(tuple(v), num), nontrivial=n > 1)
        got = x1(H.call('map', [float(x) for a, b in v for x in (a, b)] or [], num)[0])
        want = area(v, num)
        H.check('area', close(got, want, 1e-5), lambda: 'mAP of %s with %d ground truths is %r, expected %r' % (v, num, got, want))
        H.check('in [0, 1]', -1e-6 <= got <= 1 + 1e-6, lambda: 'mAP of %s with %d ground truths is %r' % (v, num, got))

    def motion():
        t = sc.Track()
        t.id = 1
        n, h = r.choice([2, 3, 6, 12]), r.randrange(0, 2)
        x, y, a, v, w = r.uniform(-9, 9), r.uniform(-9, 9), r.uniform(-3.1, 3.1), r.choice([0.0, .3, 2.5, 8.0]), r.choice([0, 0, .1, -.1, .5, -.5, 1.1, -1.1])
        for _ in range(n):
            mo.state(t.states.add(), x, y, a, v, r.random() < .8)
            x, y, a = x + v * math.cos(a), y + v * math.sin(a), a + w
        if r.random() < .3:
            t.states[-1].center_x, t.states[-1].center_y, t.states[-1].heading = t.states[0].center_x + r.gauss(0, 6), t.states[0].center_y + r.gauss(0, 6), r.uniform(-3.1, 3.1)
        try:
            want = cls(h, t)
        except Near:
            return
        H.case(lambda: dict(step=h, track=str(t)), key=(H.round, H.evals), nontrivial=want is not None)
        got = n1(H.call('classify', h, t)[0])
        H.check('motion type', got == (-1 if want is None else want), lambda: 'motion type %d, expected %s from step %d: %s' % (got, want, h, [(q.center_x, q.center_y, q.heading, q.velocity_x, q.velocity_y, q.valid) for q in t.states]))

    def confidences():
        m = mp.MultimodalPrediction()
        v = [f4(r.choice([0.0, 0.0, 1.0, r.random(), 1e-3, 50.0])) for _ in range(r.choice([0, 1, 2, 3, 6]))]
        if r.random() < .2:
            v = [0.0] * len(v)
        for x in v:
            m.joint_predictions.add().confidence = x
        H.case(lambda: dict(confidences=v), key=tuple(v), nontrivial=len(v) > 1)
        got = dd(H.call('confidences', m)[0])
        want = [x / sum(v) if sum(v) else 1 / len(v) for x in v]
        H.check('normalised', len(got) == len(want) and all(close(a, b, 1e-5) for a, b in zip(got, want)), lambda: 'confidences %s normalised to %s, expected %s' % (v, got, want))
    H.phases((5, single), (3, several), (1, pr), (1, motion), (1, confidences))

"""C09: precision, recall and average precision recomputed from the published definitions; order independence by shuffling."""
import gen
from h import D, I, x1, f32
from gen import metrics_pb2
import c08

RULE = ('random precision/recall curves on dyadic grids (ties, zeros, perfect) for recall steps from 1/64 to 1; random frames of measurements with 1-3 breakdowns and 1-6 cutoffs, '
        'merged in two orders; whole evaluations of random frames against frame-by-frame measurements')
F = (('', 'num_tps'), ('_ha_weighted', 'sum_ha'), ('_longitudinal_affinity_weighted', 'sum_longitudinal_affinity'))


def ap(P, R, d):
    """area under the interpolated curve; None when a recall gap is too close to a multiple of the step to call"""
    if not P:
        return 0.0
    pts, last = [], None
    m = 0.0
    for r in sorted(set(R) | {0.0}, reverse=True):
        if last is not None:
            g = last - r
            n = round(g / d)
            if n >= 1 and 2e-7 < abs(g - n * d) < 3e-6:
                return None
            while last - r > d + 1e-6:
                last -= d
                pts.append((last, m))
        real = [p for p, q in zip(P, R) if q == r] + ([1.0] if r == 0 else [])
        m = max([m] + real)
        pts.append((r, m))
        last = r
    if len(pts) > 1:
        pts[-1] = (pts[-1][0], pts[-2][1])
    return sum((a[0] - b[0]) * (a[1] + b[1]) / 2 for a, b in zip(pts, pts[1:]))


def run(H):
    r = H.r

    def curve():
        n = r.choice([0, 1, 2, 3, 5, 10, 30])
        g = r.choice([2, 4, 10, 64])
        P = [f32(r.choice([0, 1, r.randint(0, g) / g, r.random()])) for _ in range(n)]
        R = [f32(r.choice([0, 1, r.randint(0, g) / g, r.randint(0, 64) / 64])) for _ in range(n)]
        if r.random() < .15:
            P = [1.0] * n
        d = f32(r.choice([1, .5, .25, 1 / 64, 1 / 32, .05, .3, .1, r.uniform(.02, 1)]))
        H.case(lambda: ['map', P, R, d], key=(tuple(P), tuple(R), d))
        x = x1(H.call('map', D(P), D(R), d)[0])
        H.check('ap-range', -1e-6 <= x <= 1 + 1e-5, lambda: 'average precision %r of %s / %s step %r' % (x, P, R, d))
        if P and min(P) == 1 and max(R) == 1:
            H.check('ap-perfect', abs(x - 1) < 1e-5, lambda: 'average precision %r of a perfect curve %s' % (x, R))
        w = ap(P, R, d)
        if w is not None:
            H.check('ap', abs(x - w) < 1e-4, lambda: 'average precision %r, expected %r: precisions %s recalls %s step %r' % (x, w, P, R, d))
        s = list(zip(P, R))
        r.shuffle(s)
        y = x1(H.call('map', D([a for a, _ in s]), D([b for _, b in s]), d)[0])
        H.check('ap-order', x == y, lambda: 'average precision %r becomes %r when %s are reordered' % (x, y, list(zip(P, R))))

    def conf():
        c, _ = c08.config(r, n=1)
        c.desired_recall_delta = r.choice([.05, .1, .5, 1, .3])
        if r.random() < .3:
            c.min_precision = r.choice([.05, .2, .5])
        return c

    def rates(c, q, where):
        """a metrics message against its own counts"""
        M = q.measurements.measurements
        H.check('cutoffs', list(q.score_cutoffs) == [m.score_cutoff for m in M], lambda: 'cutoffs %s: %s' % (list(q.score_cutoffs), where()))
        H.check('breakdown', q.breakdown == q.measurements.breakdown, lambda: 'breakdown differs: %s' % where())
        for v, num in F:
            P, R = list(getattr(q, 'precisions' + v)), list(getattr(q, 'recalls' + v))
            if not H.check('rate-count', len(P) == len(R) == len(M), lambda: '%d precisions and %d recalls for %d cutoffs: %s' % (len(P), len(R), len(M), where())):
                continue
            for p, y, m in zip(P, R, M):
                a, b = m.num_tps + m.num_fps, m.num_tps + m.num_fns
                rec = m.num_tps / b if b else 0.0
                x = getattr(m, num) / a if a else 0.0
                ok = {1.0} if rec == 0 else {x} if x >= c.min_precision + 1e-6 else {0.0} if x < c.min_precision - 1e-6 else {x, 0.0}
                H.check('recall', abs(y - rec) < 1e-6, lambda: 'recall%s %r for %d of %d: %s' % (v, y, m.num_tps, b, where()))
                H.check('precision', any(abs(p - z) < 1e-6 for z in ok), lambda: 'precision%s %r, expected %s: %s' % (v, p, ok, where()))
                H.check('rate-range', 0 <= p <= 1 + 1e-6 and 0 <= y <= 1, lambda: 'precision%s %r recall %r: %s' % (v, p, y, where()))
            w = ap(P, R, f32(c.desired_recall_delta))
            x = getattr(q, 'mean_average_precision' + v)
            if w is not None:
                H.check('metric-ap', abs(x - w) < 1e-4, lambda: 'average precision%s %r, expected %r: %s' % (v, x, w, where()))

    def frames(n, b, cut):
        out = []
        for _ in range(n):
            fr = []
            for s in range(b):
                m = metrics_pb2.DetectionMeasurements()
                m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level = 2, s, 2
                for q in cut:
                    x = m.measurements.add()
                    x.score_cutoff = q
                    x.num_tps, x.num_fps, x.num_fns = [r.choice([0, 0, 1, 2, 7]) for _ in range(3)]
                    x.sum_ha = x.num_tps * r.choice([0, 1, .5, .25])
                    x.sum_longitudinal_affinity = x.num_tps * r.choice([1, 1, .5, .75])
                    if r.random() < .5 or n == 1:
                        x.details.add().fp_ids.append(str(len(out)))
                fr.append(m)
            out.append(fr)
        return out

    def parse(cls, rep):
        out = []
        for b in rep:
            out.append(cls())
            out[-1].ParseFromString(b)
        return out

    def merge():
        c = conf()
        n, b = r.choice([0, 1, 2, 3, 6]), r.randint(1, 3)
        cut = sorted(f32(r.random()) for _ in range(r.choice([1, 2, 6])))
        fr = frames(n, b, cut)
        H.case(lambda: dict(config=gen.show(c), frames=[[gen.show(m) for m in f] for f in fr]), key=(H.round, H.evals))
        where = lambda: '%d frames of %d breakdowns' % (n, b)

        def args(f):
            return [I([len(x) for x in f])] + [m for x in f for m in x]
        M = parse(metrics_pb2.DetectionMeasurements, H.call('det_merge', c, *args(fr)))
        H.check('merge-size', len(M) == (b if n else 0), lambda: '%d merged lists: %s' % (len(M), where()))
        for s, m in enumerate(M):
            H.check('merge-cutoffs', [x.score_cutoff for x in m.measurements] == cut and m.breakdown == fr[0][s].breakdown, lambda: 'merged cutoffs or breakdown differ: %s' % where())
            for k, x in enumerate(m.measurements):
                for f in ('num_tps', 'num_fps', 'num_fns', 'sum_ha', 'sum_longitudinal_affinity'):
                    t = sum(getattr(a[s].measurements[k], f) for a in fr)
                    H.check('merge-sum', abs(getattr(x, f) - t) < 1e-3, lambda: '%s is %r, the frames add up to %r: %s' % (f, getattr(x, f), t, where()))
        Q = parse(metrics_pb2.DetectionMetrics, H.call('det_from_meas', c, *args(fr)))
        H.check('metric-count', len(Q) == len(M), lambda: '%d metrics for %d lists: %s' % (len(Q), len(M), where()))
        for q, m in zip(Q, M):
            H.check('metric-source', q.measurements == m, lambda: 'metrics do not carry the merged measurements: %s' % where())
            rates(c, q, where)
        if n > 1:
            g = list(fr)
            r.shuffle(g)
            for q, p in zip(Q, parse(metrics_pb2.DetectionMetrics, H.call('det_from_meas', c, *args(g)))):
                for v, _ in F:
                    a, z = getattr(q, 'mean_average_precision' + v), getattr(p, 'mean_average_precision' + v)
                    H.check('order', abs(a - z) < 1e-5, lambda: 'average precision%s %r becomes %r when the frames are reordered: %s' % (v, a, z, where()))

    def whole():
        import c02
        c, _ = c08.config(r)
        c.desired_recall_delta = .05
        n = r.randint(1, 3)
        P, G = [], []
        for f in range(n):
            p, g = c02.scene(r, c.box_type == 2, 6.0, 5)
            c08.dress(r, p, False, str(f))
            c08.dress(r, g, True, str(f))
            P.append(p)
            G.append(g)
        for l in P + G:
            for o in l:
                o.object.type = o.object.type or 1
        H.case(lambda: dict(config=gen.show(c), pds=[[gen.show(o) for o in l] for l in P], gts=[[gen.show(o) for o in l] for l in G]), key=(H.round, H.evals))
        Q = parse(metrics_pb2.DetectionMetrics, H.call('det_metrics', c, n, *[gen.objs(l) for l in P + G]))
        fr = [parse(metrics_pb2.DetectionMeasurements, H.call('det_meas', c, gen.objs(p), gen.objs(g))) for p, g in zip(P, G)]
        where = lambda: 'evaluation of %d frames' % n
        if not H.check('whole-count', len(Q) == len(fr[0]), lambda: '%d metrics for %d lists: %s' % (len(Q), len(fr[0]), where())):
            return
        for s, q in enumerate(Q):
            for k, x in enumerate(q.measurements.measurements):
                for f in ('num_tps', 'num_fps', 'num_fns', 'sum_ha', 'sum_longitudinal_affinity'):
                    t = sum(getattr(a[s].measurements[k], f) for a in fr)
                    H.check('whole-sum', abs(getattr(x, f) - t) < 1e-3, lambda: '%s is %r, the frames add up to %r: %s' % (f, getattr(x, f), t, where()))
            rates(c, q, where)
    H.phases((4, curve), (4, merge), (2, whole))

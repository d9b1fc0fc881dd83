"""C12: tracking metrics recomputed from the counts: totals by addition, ratios over ground truths, the best cutoff."""
import gen
from h import I, f32
from gen import metrics_pb2
import c08

RULE = 'random scenes of tracking measurements with 0-3 breakdowns and 1-6 cutoffs (ties, zero ground truths, zero matches, negative accuracies); whole evaluations of random scenes against scene-by-scene measurements'
CNT = ('num_misses', 'num_fps', 'num_mismatches', 'matching_cost', 'num_matches', 'num_objects_gt')


def run(H):
    r = H.r

    def parse(cls, rep):
        out = []
        for b in rep:
            out.append(cls())
            out[-1].ParseFromString(b)
        return out

    def metric(q, where):
        """a metrics message against its own counts"""
        M = list(q.measurements.measurements)
        H.check('breakdown', q.breakdown == q.measurements.breakdown, lambda: 'breakdown differs: %s' % where())
        val, c = [], []
        for m in M:
            n = m.num_objects_gt
            c.append([x / n for x in (m.num_misses, m.num_fps, m.num_mismatches)] if n else None)
            val.append(1 - sum(c[-1]) if n else None)
        b = max([v for v in val if v is not None] + [0.0])
        eps = 1e-5
        H.check('mota', abs(q.mota - b) < eps, lambda: 'accuracy %r, the best of the cutoffs is %r (%s): %s' % (q.mota, b, val, where()))
        got = (q.miss, q.fp, q.mismatch)
        top = [k for k, v in enumerate(val) if v is not None and v > b - eps and v > -eps]
        ok = []
        for k in top:
            m = M[k]
            ok.append(c[k] + [m.matching_cost / m.num_matches if m.num_matches > 0 else 0.0, m.score_cutoff])
        if b < eps:
            ok.append([0.0] * 5)
        g = list(got) + [q.motp, q.score_cutoff]
        H.check('best', any(all(abs(x - y) < 1e-5 * max(1, abs(y)) for x, y in zip(g, w)) for w in ok), lambda: 'ratios, precision and cutoff %s, expected one of %s (accuracies %s): %s' % (g, ok, val, where()))
        first = [k for k, v in enumerate(val) if v is not None and v > b - 1e-9]
        if b > eps and len(first) > 1 and all(M[k].num_objects_gt == M[first[0]].num_objects_gt and
                                              sum((M[k].num_misses, M[k].num_fps, M[k].num_mismatches)) == sum((M[first[0]].num_misses, M[first[0]].num_fps, M[first[0]].num_mismatches)) and c[k] == c[first[0]] for k in first):
            H.check('tie', q.score_cutoff == M[first[0]].score_cutoff, lambda: 'cutoff %r on a tie of %s: %s' % (q.score_cutoff, [M[k].score_cutoff for k in first], where()))

    def scenes(n, b, cut):
        out = []
        for _ in range(n):
            fr = []
            for s in range(b):
                m = metrics_pb2.TrackingMeasurements()
                m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level = 2, s, r.choice([2]) 
                for q in cut:
                    x = m.measurements.add()
                    x.score_cutoff = q
                    x.num_objects_gt = r.choice([0, 1, 5, 10, 40])
                    x.num_matches = r.choice([0, 1, 5, 10, 30])
                    x.num_misses, x.num_fps, x.num_mismatches = [r.choice([0, 0, 1, 2, 7]) for _ in range(3)]
                    x.matching_cost = x.num_matches * r.choice([0, .5, .25, .125])
                    if r.random() < .4:
                        x.details.add().fp_pred_ids.append(str(len(out)))
                fr.append(m)
            out.append(fr)
        return out

    def args(f):
        return [I([len(x) for x in f])] + [m for x in f for m in x]

    def merge():
        c, _ = c08.config(r, n=1)
        n, b = r.choice([0, 1, 2, 3, 6]), r.choice([0, 1, 1, 2, 3])
        cut = sorted(f32(r.random()) for _ in range(r.choice([1, 2, 6])))
        fr = scenes(n, b, cut)
        if n > 1 and r.random() < .2:
            fr[r.randrange(n)] = []  # a scene without measurements adds nothing
        H.case(lambda: dict(config=gen.show(c), scenes=[[gen.show(m) for m in f] for f in fr]), key=(H.round, H.evals))
        where = lambda: '%d scenes of %d breakdowns' % (n, b)
        Q = parse(metrics_pb2.TrackingMetrics, H.call('trk_from_meas', c, *args(fr)))
        live = [f for f in fr if f]
        if not H.check('metric-count', len(Q) == (b if live else 0), lambda: '%d metrics: %s' % (len(Q), where())):
            return
        for s, q in enumerate(Q):
            M = q.measurements.measurements
            H.check('merge-cutoffs', [x.score_cutoff for x in M] == cut and q.measurements.breakdown == live[0][s].breakdown, lambda: 'merged cutoffs or breakdown differ: %s' % where())
            for k, x in enumerate(M):
                for f in CNT:
                    t = sum(getattr(a[s].measurements[k], f) for a in live)
                    H.check('merge-sum', abs(getattr(x, f) - t) < 1e-3, lambda: '%s is %r, the scenes add up to %r: %s' % (f, getattr(x, f), t, where()))
            metric(q, where)
        if n > 1:
            h = list(fr)
            r.shuffle(h)
            for q, p in zip(Q, parse(metrics_pb2.TrackingMetrics, H.call('trk_from_meas', c, *args(h)))):
                H.check('order', abs(q.mota - p.mota) < 1e-5, lambda: 'accuracy %r becomes %r when the scenes are reordered: %s' % (q.mota, p.mota, where()))

    def whole():
        import c02
        c, _ = c08.config(r)
        c.matcher_type = 2      # equal weights are resolved by hash order: keep every choice strict
        c.iou_thresholds[:] = [0.0, .3, .2, .1, .4]
        n = r.randint(1, 3)
        P, G, L = [], [], []
        for s in range(n):
            L.append(r.randint(1, 3))
            for f in range(L[-1]):
                p, g = c02.scene(r, c.box_type == 2, 6.0, 5)
                c08.dress(r, p, False, str(f))
                c08.dress(r, g, True, str(f))
                for l in (p, g):
                    for q, o in enumerate(l):
                        o.object.id = str(q)
                        o.object.type = o.object.type or 1
                        o.object.box.center_x += r.uniform(-.1, .1)
                        o.object.box.length += r.uniform(0, .1)
                        o.score = (q + r.random()) / (len(l) + 1)
                P.append(p)
                G.append(g)
        H.case(lambda: dict(config=gen.show(c), lengths=L, pds=[[gen.show(o) for o in l] for l in P], gts=[[gen.show(o) for o in l] for l in G]), key=(H.round, H.evals))
        Q = parse(metrics_pb2.TrackingMetrics, H.call('trk_metrics', c, I(L), *[gen.objs(l) for l in P + G]))
        where = lambda: 'evaluation of scenes of %s frames' % L
        fr, at = [], 0
        for l in L:
            fr.append(parse(metrics_pb2.TrackingMeasurements, H.call('trk_meas', c, l, *[gen.objs(x) for x in P[at:at + l] + G[at:at + l]])))
            at += l
        if not H.check('whole-count', len(Q) == len(fr[0]), lambda: '%d metrics for %d lists: %s' % (len(Q), len(fr[0]), where())):
            return
        for s, q in enumerate(Q):
            for k, x in enumerate(q.measurements.measurements):
                for f in CNT:
                    t = sum(getattr(a[s].measurements[k], f) for a in fr)
                    H.check('whole-sum', abs(getattr(x, f) - t) < 1e-3, lambda: '%s is %r, the scenes add up to %r: %s' % (f, getattr(x, f), t, where()))
            metric(q, where)
    H.phases((5, merge), (3, whole))

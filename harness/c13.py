"""C13: segmentation IoU recounted point by point; accumulation, reset, order and merging of partial results."""
from fractions import Fraction
from h import I, ii, f32
from waymo_open_dataset.protos import segmentation_metrics_pb2 as sp

RULE = 'random class lists (0-22, any order), sequences of 0-6 frames of labels inside and outside the list, resets, rejected frames, reordered and merged frames, counts beyond 32 bits'


def run(H):
    r = H.r

    def metrics(b):
        m = sp.SegmentationMetrics()
        m.ParseFromString(b)
        return m

    def count(T, frames):
        inter, union = dict.fromkeys(T, 0), dict.fromkeys(T, 0)
        for p, g in frames:
            for a, b in zip(p, g):
                for t in T:
                    if a == t and b == t:
                        inter[t] += 1
                    # predicted as the class counts only on points that carry an evaluated label
                    if b == t or (a == t and b in T):
                        union[t] += 1
        return [inter[t] for t in T], [union[t] for t in T]

    def check(m, T, inter, union, where):
        M = m.segmentation_measurements
        H.check('intersections', list(M.intersections) == inter, lambda: 'intersections %s, counted %s: %s' % (list(M.intersections), inter, where()))
        H.check('unions', list(M.unions) == union, lambda: 'unions %s, counted %s: %s' % (list(M.unions), union, where()))
        w = [float(Fraction(a, b)) if b else 1.0 for a, b in zip(inter, union)]
        H.check('classes', set(m.per_class_iou) == set(T), lambda: 'classes %s of %s: %s' % (sorted(m.per_class_iou), T, where()))
        for t, x in zip(T, w):
            H.check('iou', abs(m.per_class_iou[t] - x) < 1e-5, lambda: 'IoU of class %d is %r, expected %r: %s' % (t, m.per_class_iou[t], x, where()))
        H.check('miou', abs(m.miou - sum(w) / len(w)) < 1e-4, lambda: 'mean IoU %r, expected %r: %s' % (m.miou, sum(w) / len(w), where()))

    def setup():
        T = r.sample(range(23), r.choice([1, 1, 2, 3, 5, 22]))
        c = sp.SegmentationMetricsConfig()
        c.segmentation_types.extend(T)
        return c, T

    def frame(T):
        n = r.choice([0, 1, 2, 5, 40])
        pool = r.choice([T, T + [0], list(range(23)), T[:2]])
        g = [r.choice(pool) for _ in range(n)]
        p = [x if r.random() < .5 else r.choice(pool if r.random() < .7 else range(23)) for x in g]
        return p, g

    def accumulate():
        c, T = setup()
        ops, frames, st = [], [], []
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            k = r.random()
            if k < .12:
                ops += [I([-1]), I([])]
                frames = []
            elif k < .25:
                p, g = frame(T)
                ops += [I(p + [T[0]]), I(g)] if r.random() < .5 else [I(p), I(g + [T[0]])]
                st.append(0)
            else:
                p, g = frame(T)
                ops += [I(p), I(g)]
                frames.append((p, g))
                st.append(1)
        H.case(lambda: dict(classes=T, frames=frames, updates=len(ops) // 2), key=(H.round, H.evals), nontrivial=bool(frames))
        rep = H.call('seg', c, *ops)
        where = lambda: 'classes %s, frames (predictions, labels) %s' % (T, str(frames)[:400])
        H.check('accepted', ii(rep[0]) == st, lambda: 'updates accepted %s, expected %s: %s' % (ii(rep[0]), st, where()))
        m = metrics(rep[1])
        inter, union = count(T, frames)
        check(m, T, inter, union, where)
        if len(frames) > 1:
            q = list(frames)
            r.shuffle(q)
            m2 = metrics(H.call('seg', c, *[I(x) for f in q for x in f])[1])
            H.check('order', m2 == m, lambda: 'another order of the frames gives %s instead of %s' % (m2, m))
            cut = r.randrange(len(q) + 1)
            parts = [metrics(H.call('seg', c, *[I(x) for f in l for x in f])[1]).segmentation_measurements for l in (q[:cut], q[cut:])]
            m3 = metrics(H.call('seg_merge', c, *parts)[0])
            H.check('merge', list(m3.segmentation_measurements.unions) == union and list(m3.segmentation_measurements.intersections) == inter and m3.miou == m.miou and dict(m3.per_class_iou) == dict(m.per_class_iou), lambda: 'merging two halves gives %s instead of %s' % (m3, m))

    def merge():
        c, T = setup()
        L = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            x = sp.SegmentationMeasurements()
            for t in T:
                u = r.choice([0, 0, 1, 7, 1000, 2000000000, 3000000000, 1 << 40])
                x.unions.append(u)
                x.intersections.append(r.choice([0, u, u // 2, u // 3]))
            L.append(x)
        H.case(lambda: dict(classes=T, results=[[list(x.intersections), list(x.unions)] for x in L]), key=(H.round, H.evals), nontrivial=bool(L))
        m = metrics(H.call('seg_merge', c, *L)[0])
        tot = lambda n: [sum(getattr(x, n)[k] for x in L) for k in range(len(T))]
        check(m, T, tot('intersections'), tot('unions'), lambda: 'merging %s' % [[list(x.intersections), list(x.unions)] for x in L])
    H.phases((3, accumulate), (1, merge))

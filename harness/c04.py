"""C04: the localization-error-tolerant definitions, on the compiled code."""
import math
from h import D, dd, x1, f32
import geo
import c03
from waymo_open_dataset.protos import metrics_pb2

RULE = 'sensor, ground-truth and prediction positions at random, behind the sensor, at the sensor and on one line; every alignment type'
L = metrics_pb2.Config.LongitudinalErrorTolerantConfig
TYPES = {1: 'not aligned', 2: 'range aligned', 3: 'centre aligned', 4: 'further only', 5: 'any closer only', 6: 'between origin and ground truth'}


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def lam(p, g):
    return dot(p, g) / max(dot(p, p), 1e-6)


def align(t, P, G):
    p, g = P[:3], G[:3]
    l = lam(p, g)
    inside = 0 <= l < 1
    m = {1: p, 3: g}.get(t)
    if m is None:
        k = {2: l, 4: l if inside else 1, 5: 1 if inside else l, 6: max(l, 1)}[t]
        m = [x * k for x in p]
    return list(m) + list(P[3:])


def affinity(P, G, s, pct, mn):
    p, g = [a - b for a, b in zip(P[:3], s)], [a - b for a, b in zip(G[:3], s)]
    gr = max(math.sqrt(dot(g, g)), 1e-6)
    tol = max(pct * gr, mn)
    return max(0.0, min(1.0, 1 - abs(dot(p, g) / gr - gr) / tol))


def near(a, b, tol=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1, abs(x), abs(y)) for x, y in zip(a, b))


def run(H):
    r = H.r

    def boxes(s=(0, 0, 0)):
        d = r.choice([1, 10, 80, 200])
        c = [r.uniform(-d, d), r.uniform(-d, d), r.uniform(-3, 3)]
        dims = lambda: [r.uniform(.5, 6), r.uniform(.5, 3), r.uniform(.5, 3), r.uniform(-7, 7)]
        k = r.randrange(8)
        if k < 4:       # along the line of sight, plus a little
            f = r.choice([.5, .8, .95, 1, 1.05, 1.3, 2, -1, r.uniform(.5, 1.5)])
            e = r.choice([0, 0, .2, 1])
            p = [x * f + r.uniform(-e, e) for x in c]
        elif k == 4:
            p = [0, 0, 0]
        elif k == 5:
            p, c = c, [0, 0, 0]
        else:
            p = [r.uniform(-d, d), r.uniform(-d, d), r.uniform(-3, 3)]
        g = dims()
        q = g if r.random() < .5 else dims()
        return [a + b for a, b in zip(p, s)] + q, [a + b for a, b in zip(c, s)] + g

    def sensor():
        return r.choice([[0, 0, 0], [1.5, 0, 2], [r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(0, 3)], [r.uniform(-50, 50), r.uniform(-50, 50), 1]])

    def conf(s):
        c = L()
        c.enabled = True
        c.sensor_location.x, c.sensor_location.y, c.sensor_location.z = s
        c.longitudinal_tolerance_percentage = r.choice([.1, 0, .05, .5])
        c.min_longitudinal_tolerance_meter = r.choice([.5, .1, 3, 1e-3])
        return c

    def aff():
        s = sensor()
        P, G = boxes(s)
        c = conf(s)
        H.case(lambda: dict(prediction=P, ground_truth=G, sensor=s, percentage=c.longitudinal_tolerance_percentage, minimum=c.min_longitudinal_tolerance_meter))
        rep = H.call('affinity', c, D(P), D(G))
        v, w = x1(rep[0]), x1(rep[1])
        e = affinity(P, G, s, c.longitudinal_tolerance_percentage, c.min_longitudinal_tolerance_meter)
        H.check('range', 0 <= v <= 1, lambda: 'affinity %r outside [0, 1]' % v)
        H.check('affinity', abs(v - e) < 1e-5 or math.dist(P[:3], s) < 2e-6, lambda: 'affinity %r, the definition gives %r' % (v, e))
        H.check('function-object', v == w, lambda: 'GetComputeLongitudinalAffinityFunc gives %r, the function %r' % (w, v))

    def ali():
        P, G = boxes()
        t = r.randint(1, 6)
        l = lam(P[:3], G[:3])
        H.case(lambda: dict(type=TYPES[t], prediction=P, ground_truth=G))
        v = dd(H.call('align', t, D(P), D(G))[0])
        H.check('size-heading', v[3:] == P[3:], lambda: 'size/heading %s became %s' % (P[3:], v[3:]))
        if min(abs(l), abs(l - 1)) < 1e-9 and t >= 4:
            H.check('align-edge', near(v, P, 1e-6) or near(v, align(2, P, G), 1e-6), lambda: '%s: moved to %s' % (TYPES[t], v))
        else:
            e = align(t, P, G)
            H.check('align:' + TYPES[t], near(v, e), lambda: '%s: moved to %s, expected %s' % (TYPES[t], v[:3], e[:3]))

    def trans():
        P, G = boxes()
        d = [r.uniform(-9, 9) for _ in range(3)]
        H.case(lambda: dict(translate=P, by=d))
        v = dd(H.call('translate', D(P), D(d))[0])
        H.check('translate', near(v, [a + b for a, b in zip(P[:3], d)] + P[3:]), lambda: 'translated to %s' % v)

    def let():
        s = sensor()
        P, G = boxes(s)
        c = conf(s)
        c.align_type = t = r.randint(1, 6)
        bt = r.choice([1, 2])
        p, g = [a - b for a, b in zip(P[:3], s)], [a - b for a, b in zip(G[:3], s)]
        l = lam(p, g)
        if min(abs(l), abs(l - 1)) < 1e-9 and t >= 4:
            return
        H.case(lambda: dict(let=TYPES[t], box_type=bt, prediction=P, ground_truth=G, sensor=s))
        rep = H.call('letiou', c, bt, D(P), D(G))
        e = c03.iou(bt, align(t, p + P[3:], g + G[3:]), g + G[3:])
        v, w = x1(rep[0]), x1(rep[1])
        H.check('letiou', abs(v - e) < 1e-5, lambda: '%s: LET IoU %r, that of the aligned boxes is %r' % (TYPES[t], v, e))
        H.check('function-object', v == w, lambda: 'GetComputeLetIoUFunc gives %r, the function %r' % (w, v))
    H.phases((4, aff), (4, ali), (1, trans), (4, let))

"""C03: IoU against an independent half-plane clipper."""
import math
from h import D, dd, x1
import geo

RULE = 'pairs of boxes: random, nested, touching, equal, disjoint, near-parallel, tiny, huge and far from the origin, for the three box types'


def box(r, near=None):
    if near:
        b = list(near)
        k = r.randrange(10)
        if k == 0:
            return b
        if k == 1:      # touching along x or y of the near box
            c, s = math.cos(b[6]), math.sin(b[6])
            d = r.choice([(b[3], 0), (0, b[4]), (b[3], b[4]), (-b[3], 0)])
            b[0] += c * d[0] - s * d[1]
            b[1] += s * d[0] + c * d[1]
            return b
        if k == 2:      # nested, same centre
            b[3] *= r.uniform(.2, 1)
            b[4] *= r.uniform(.2, 1)
            b[6] += r.choice([0, math.pi, math.pi / 2, r.uniform(-4, 4)])
            return b
        if k == 3:      # stacked in height
            b[2] += r.choice([1, -1]) * b[5] * r.choice([.5, .999, 1, 1.001, 2])
            return b
        if k == 4:
            b[6] += r.choice([1e-9, 1e-6, 1e-3, 2 * math.pi, math.pi, math.pi / 2])
            return b
        b[0] += r.uniform(-1, 1) * b[3]
        b[1] += r.uniform(-1, 1) * b[4]
        b[2] += r.uniform(-.5, .5) * b[5]
        for i in (3, 4, 5):
            b[i] *= r.choice([1, 1, r.uniform(.3, 2)])
        b[6] += r.choice([0, r.uniform(-4, 4), r.uniform(-.1, .1)])
        return b
    s = r.choice([0, 1, 30, 300])
    dim = lambda: r.choice([.5, 1, 2, 4.5, r.uniform(.02, 1), r.uniform(.1, 12), 10 ** r.uniform(-1.9, 2.5)])
    return [r.uniform(-s, s), r.uniform(-s, s), r.uniform(-3, 3), dim(), dim(), dim(), r.choice([0, 0, math.pi / 2, r.uniform(-7, 7)])]


def iou(t, a, b):
    dims = (3, 4, 5) if t == 1 else (3, 4)
    if any(x[k] >= 1e6 for x in (a, b) for k in (3, 4, 5)) or any(x[k] <= 1e-2 for x in (a, b) for k in dims):
        return 0.0
    if t == 3:
        i = 1.0
        for c, d in ((0, 3), (1, 4)):
            i *= max(0, min(a[c] + a[d] / 2, b[c] + b[d] / 2) - max(a[c] - a[d] / 2, b[c] - b[d] / 2))
    else:
        i = geo.inter(geo.corners(a[0], a[1], a[6], a[3], a[4]), geo.corners(b[0], b[1], b[6], b[3], b[4]))
    va, vb = a[3] * a[4], b[3] * b[4]
    if t == 1:
        i *= max(0, min(a[2] + a[5] / 2, b[2] + b[5] / 2) - max(a[2] - a[5] / 2, b[2] - b[5] / 2))
        va, vb = va * a[5], vb * b[5]
    u = va + vb - i
    return 0.0 if u <= 1e-6 else min(1, max(0, i / u))


NAMES = {1: '3D', 2: '2D', 3: 'axis-aligned'}


def run(H):
    r = H.r

    def one(a, b, t):
        H.case(lambda: dict(type=NAMES[t], a=a, b=b), key=(t, tuple(a), tuple(b)))
        v, w = x1(H.call('iou', t, D(a), D(b))[0]), x1(H.call('iou', t, D(b), D(a))[0])
        H.check('range', 0 <= v <= 1, lambda: '%s IoU %r outside [0, 1]' % (NAMES[t], v))
        H.check('symmetric', abs(v - w) < 2e-6, lambda: '%s IoU %r one way, %r the other' % (NAMES[t], v, w))
        e = iou(t, a, b)
        H.check('value:' + NAMES[t], abs(v - e) < 2e-6, lambda: '%s IoU %r, the overlap ratio is %r' % (NAMES[t], v, e))
        return v

    def pairs():
        a = box(r)
        b = box(r, a if r.random() < .8 else None)
        one(a, b, r.choice([1, 1, 2, 2, 3]))

    def equal():
        a = box(r)
        t = r.choice([1, 2, 3])
        v = one(a, list(a), t)
        H.check('self', abs(v - 1) < 2e-6 or min(a[3:6]) <= .01, lambda: 'IoU of a box with itself is %r' % v)

    def disjoint():
        a, b = box(r), box(r)
        t = r.choice([1, 2, 3])
        if r.random() < .5 and t == 1:
            b[0], b[1] = a[0], a[1]
            b[2] = a[2] + r.choice([1, -1]) * ((a[5] + b[5]) / 2 + r.choice([1e-3, .5, 30]))
        else:
            d = (math.hypot(a[3], a[4]) + math.hypot(b[3], b[4])) / 2 + r.choice([1e-3, .5, 100])
            if t == 3:
                d = max(a[3] + b[3], a[4] + b[4]) / 2 * 1.5 + 1
            u = r.uniform(0, 6.3)
            b[0], b[1] = a[0] + d * math.cos(u), a[1] + d * math.sin(u)
        v = one(a, b, t)
        H.check('disjoint', v == 0, lambda: 'IoU of boxes that do not overlap is %r' % v)

    def edge():
        a, b = box(r), None
        k = r.choice([3, 4, 5])
        a[k] = r.choice([0, .005, .01, .0100001, .02, 999999, 1e6, 2e6])
        b = box(r, a) if r.random() < .6 else box(r)
        t = r.choice([1, 2, 3])
        if max(a[3:6] + b[3:6]) > 1e4:
            if any(x >= 1e6 for x in a[3:6]) and r.random() < .5:
                a, b = b, a
            v = x1(H.call('iou', t, D(a), D(b))[0])
            H.case(lambda: dict(type=NAMES[t], a=a, b=b))
            H.check('range', 0 <= v <= 1, lambda: 'IoU %r outside [0, 1]' % v)
            if any(x >= 1e6 for x in a[3:6] + b[3:6]):
                H.check('huge', v == 0, lambda: 'IoU with a box a million metres large is %r' % v)
        else:
            one(a, b, t)

    def batch():
        a = box(r)
        n = r.choice([0, 1, 2, 3, 7])
        bs = [box(r, a) for _ in range(n)]
        t = r.choice([1, 2, 3])
        H.case(lambda: dict(batch=NAMES[t], a=a, bs=bs))
        v = dd(H.call('batchiou', t, D(a), *[D(b) for b in bs])[0])
        if H.check('batch-size', len(v) == n, lambda: '%d IoUs for %d boxes' % (len(v), n)):
            for x, b in zip(v, bs):
                H.check('batch-value', abs(x - iou(t, a, b)) < 2e-6, lambda: 'batch IoU %r, expected %r for %s' % (x, iou(t, a, b), b))
    H.phases((6, pairs), (2, equal), (2, disjoint), (1, edge), (1, batch))

"""C06: polygon intersection area and its pre-test against half-plane clipping, on the compiled code."""
import math
from h import D, dd, ii
import geo

RULE = 'pairs of boxes (any heading, touching, nested, rotated by right angles, shifted along an axis, on a grid) and of convex polygons'
PI = math.pi


def shrink(p, e):
    """clearly inside / outside tests use distances to the edges"""


def edge_gap(p, q):
    """smallest signed distance of q to the edges of counter-clockwise p (positive inside)"""
    m = math.inf
    for a, b in zip(p, p[1:] + p[:1]):
        l = math.dist(a, b)
        if l > 0:
            m = min(m, ((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) / l)
    return m


def pairs(v):
    return [(v[i], v[i + 1]) for i in range(0, len(v), 2)]


def run(H):
    r = H.r
    flat = lambda p: [z for xy in p for z in xy]

    def compare(pa, pb, v, w, maybe, aa, ab, tag):
        sc = max(1.0, aa, ab)
        e = geo.inter(pa, pb)
        far = max(1.0, max(abs(z) for p in (pa, pb) for xy in p for z in xy))
        tol = 1e-7 * sc + 1e-11 * far * math.sqrt(sc)
        H.check('area' + tag, abs(v - e) <= tol, lambda: 'intersection area %r, the overlap of the polygons is %r (areas %r, %r)' % (v, e, aa, ab))
        H.check('symmetric' + tag, abs(v - w) <= tol, lambda: 'areas %r and %r in the two orders' % (v, w))
        H.check('bounds' + tag, 0 <= v <= min(aa, ab) + tol and 0 <= w <= min(aa, ab) + tol, lambda: 'area %r / %r outside [0, min(%r, %r)]' % (v, w, aa, ab))
        H.check('maybe' + tag, maybe or e <= tol, lambda: 'the pre-test denies polygons overlapping by %r' % e)
        sep = geo.separated(pa, pb, 1e-7 * far)
        H.check('disjoint' + tag, not sep or (v == 0 and w == 0), lambda: 'disjoint polygons have area %r / %r' % (v, w))

    def boxes():
        k = r.randrange(9)
        far = r.choice([0, 0, 0, 100, 1e4])
        dim = lambda: r.choice([r.uniform(.2, 6), float(r.randint(1, 5)), 2.0])
        a = [far * r.uniform(-1, 1) + r.uniform(-4, 4), far * r.uniform(-1, 1) + r.uniform(-4, 4), r.choice([0, r.uniform(-PI, PI), PI * r.randint(-4, 4) / 4]), dim(), dim()]
        b = list(a)
        if k == 0:
            b = [a[0] + r.uniform(-5, 5), a[1] + r.uniform(-5, 5), r.uniform(-PI, PI), dim(), dim()]
        elif k == 1:        # shifted along the heading or across it
            f = r.choice([.25, .5, .75, 1, 1.25, r.uniform(0, 1.5)])
            c, s = math.cos(a[2]), math.sin(a[2])
            q = r.randrange(4)
            d = a[3] * f if q % 2 == 0 else a[4] * f
            u = (c, s) if q % 2 == 0 else (-s, c)
            sg = 1 if q < 2 else -1
            b[0], b[1] = a[0] + sg * u[0] * d, a[1] + sg * u[1] * d
        elif k == 2:        # turned about its centre
            b[2] = a[2] + r.choice([PI, PI / 2, -PI / 2, PI / 4, 1e-3, 1e-6, 1e-9, r.uniform(-PI, PI)])
        elif k == 3:        # nested
            f = r.uniform(.1, .95)
            b[3], b[4] = a[3] * f, a[4] * f
            if r.random() < .5:
                b[2] = a[2] + r.uniform(-.3, .3)
        elif k == 4:        # sharing a corner, growing from it
            f, g = r.choice([.5, 1, 2]), r.choice([.5, 1, 2])
            c, s = math.cos(a[2]), math.sin(a[2])
            dx, dy = a[3] * (f - 1) / 2, a[4] * (g - 1) / 2
            b = [a[0] + c * dx - s * dy, a[1] + s * dx + c * dy, a[2], a[3] * f, a[4] * g]
        elif k == 5:        # grid
            g = lambda: [float(r.randint(-2, 2)), float(r.randint(-2, 2)), r.choice([0, PI / 2, PI, -PI / 2]), float(r.randint(1, 4)), float(r.randint(1, 4))]
            a, b = g(), g()
        elif k == 6:        # far apart or just apart
            d = r.choice([.01, .5, 5])
            L = math.hypot(a[3], a[4]) / 2
            b = [a[0], a[1], r.uniform(-PI, PI), dim(), dim()]
            R = L + math.hypot(b[3], b[4]) / 2 + d
            t = r.uniform(-PI, PI)
            b[0] += R * math.cos(t)
            b[1] += R * math.sin(t)
        elif k == 7:        # close copies
            e = r.choice([1e-3, 1e-6, 1e-8, 1e-10])
            b = [x + r.uniform(-e, e) for x in a]
        else:               # thin
            b = [a[0] + r.uniform(-2, 2), a[1] + r.uniform(-2, 2), r.uniform(-PI, PI), dim() * 3, r.choice([.05, .2])]
        H.case(lambda: dict(a=a, b=b))
        rep = [dd(x) for x in H.call('boxpoly', D(a), D(b))]
        pa, pb = pairs(rep[0]), pairs(rep[1])
        v, w, m, aa, ab = rep[2]
        far = max(1, *map(abs, a[:2] + b[:2]))
        H.check('box-area', abs(aa - a[3] * a[4]) < 1e-9 * far * max(1, aa) and abs(ab - b[3] * b[4]) < 1e-9 * far * max(1, ab), lambda: 'box areas %r %r' % (aa, ab))
        compare(pa, pb, v, w, m, aa, ab, '-boxes')

    def polys():
        k = r.randrange(6)
        cx, cy = r.uniform(-3, 3), r.uniform(-3, 3)
        n = r.choice([3, 4, 5, 6, 8, 11, 12, 15])
        def reg(n, cx, cy):
            rad, t = r.uniform(.5, 6), r.uniform(0, 2 * PI)
            sx, sy = r.uniform(.4, 1), r.uniform(.4, 1)
            return [(cx + rad * sx * math.cos(t + 2 * PI * i / n), cy + rad * sy * math.sin(t + 2 * PI * i / n)) for i in range(n)]
        a = geo.convex_polygon(r, min(n, 8), None, cx, cy) if k < 3 else reg(n, cx, cy)
        if k in (1, 4):
            f = r.choice([.3, .7, 1.0])
            mx, my = sum(x for x, _ in a) / len(a), sum(y for _, y in a) / len(a)
            sx, sy = r.choice([(0, 0), (r.uniform(-1, 1), r.uniform(-1, 1))])
            b = [(mx + f * (x - mx) + sx, my + f * (y - my) + sy) for x, y in a]
        elif k == 2:
            j = r.randrange(3)
            b = [(x + a[j][0] - a[j - 1][0], y + a[j][1] - a[j - 1][1]) for x, y in a]
        else:
            b = geo.convex_polygon(r, r.randint(3, 8), None, cx + r.uniform(-6, 6), cy + r.uniform(-6, 6))
        rot = r.randrange(len(b))
        b = b[rot:] + b[:rot]
        q = [cx + r.uniform(-5, 5), cy + r.uniform(-5, 5), r.choice([0.0, r.uniform(-7, 7)]), r.uniform(-3, 3), r.uniform(-3, 3)]
        if r.random() < .4:
            q[:2] = [sum(x for x, _ in a) / len(a) + r.uniform(-1, 1), sum(y for _, y in a) / len(a) + r.uniform(-1, 1)]
        H.case(lambda: dict(a=a, b=b, point=q))
        rep = [dd(x) for x in H.call('poly', D(flat(a)), D(flat(b)), D(q))]
        v, w, m, m2, aa, ab, ins = rep[0][:7]
        H.check('area-polygon', abs(aa - geo.area(a)) < 1e-9 * max(1, aa) and abs(ab - geo.area(b)) < 1e-9 * max(1, ab), lambda: 'area %r, expected %r' % (aa, geo.area(a)))
        compare(a, b, v, w, m and m2, aa, ab, '-polygons')
        g = edge_gap(a, q[:2])
        if abs(g) > 1e-9:
            H.check('point-inside', bool(ins) == (g > 0), lambda: 'PointInside %r for %s at distance %r' % (ins, q[:2], g))
        def bb(p):
            return [min(x for x, _ in p), min(y for _, y in p), max(x for x, _ in p), max(y for _, y in p)]
        ok = lambda x, y, t=1e-9: len(x) == len(y) and all(abs(i - j) < t * max(1, abs(i)) for i, j in zip(x, y))
        H.check('bbox', rep[0][7:11] == bb(a) and rep[1] == bb(a), lambda: 'bounding box %s / %s, expected %s' % (rep[0][7:11], rep[1], bb(a)))
        H.check('points', rep[0][11] == len(a), lambda: '%r points, expected %d' % (rep[0][11], len(a)))
        s = [(x + q[0], y + q[1]) for x, y in a]
        H.check('shift', ok(rep[2], flat(s)) and ok(rep[3], bb(s)), lambda: 'ShiftCenter gives %s with box %s' % (rep[2], rep[3]))
        c, sn = math.cos(q[2]), math.sin(q[2])
        t = [(q[0] + q[3] + c * (x - q[0]) - sn * (y - q[1]), q[1] + q[4] + sn * (x - q[0]) + c * (y - q[1])) for x, y in a]
        if q[2] == 0:
            t = [(x + q[3], y + q[4]) for x, y in a]
        H.check('transform', ok(rep[4], flat(t)) and ok(rep[5], bb(t)), lambda: 'Transform gives %s with box %s, expected %s' % (rep[4], rep[5], flat(t)))

    def convex():
        k = r.randrange(3)
        a = geo.convex_polygon(r, r.randint(3, 8))
        kk = 'convex'
        if k == 1:
            a = a[::-1]
            kk = 'clockwise'
        elif k == 2 and len(a) > 3:
            i = r.randrange(len(a))
            mx, my = sum(x for x, _ in a) / len(a), sum(y for _, y in a) / len(a)
            p, n = a[i - 1], a[(i + 1) % len(a)]
            d = edge_gap([p, n, (mx, my)], (mx, my))
            a[i] = ((p[0] + n[0]) / 2 * .8 + mx * .2, (p[1] + n[1]) / 2 * .8 + my * .2)
            area3 = (n[0] - p[0]) * (a[i][1] - p[1]) - (n[1] - p[1]) * (a[i][0] - p[0])
            if area3 < 1e-3:
                return
            kk = 'dented'
        H.case(lambda: dict(points=a, kind=kk))
        v = ii(H.call('convex', D(flat(a)))[0])
        H.check('hull', bool(v[0]) == (kk != 'dented'), lambda: 'IsConvexHull %r for a %s polygon' % (v[0], kk))
        if kk != 'dented':
            H.check('orientation', bool(v[1]) == (kk == 'convex'), lambda: 'counter-clockwise %r for %s points' % (v[1], kk))
    H.phases((6, boxes), (5, polys), (1, convex))

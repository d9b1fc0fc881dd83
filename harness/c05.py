"""C05: vectors, angles, segments, boxes and axis-aligned boxes against independent formulas, on the compiled code."""
import math
from h import D, I, dd, ii
import geo

RULE = 'coordinates at random, on a small integer grid and degenerate (zero, axis-parallel, coincident, touching); angles near and far beyond +-pi'
PI = math.pi


def rot(p, a, c=(0, 0)):
    x, y = p[0] - c[0], p[1] - c[1]
    return (c[0] + math.cos(a) * x - math.sin(a) * y, c[1] + math.sin(a) * x + math.cos(a) * y)


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def nearv(a, b, tol=1e-9):
    return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))


def sameangle(a, b, tol=1e-8):
    return abs(math.remainder(a - b, 2 * PI)) < tol


def segdist(q, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l = dx * dx + dy * dy
    t = 0 if l == 0 else max(0, min(1, ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / l))
    return (q[0] - a[0] - t * dx) ** 2 + (q[1] - a[1] - t * dy) ** 2


def run(H):
    r = H.r

    def num():
        k = r.randrange(4)
        return float(r.randint(-4, 4)) if k < 2 else r.uniform(-10, 10) if k == 2 else r.uniform(-1e4, 1e4)

    def pt():
        return [num(), num()]

    def ang():
        return r.choice([r.uniform(-PI, PI), r.uniform(-20, 20), PI * r.randint(-6, 6) / 2, PI * r.randint(-6, 6) / 2 + r.uniform(-1e-6, 1e-6), r.uniform(-1e4, 1e4)])

    def eq(kind, a, b, what, tol=1e-9):
        H.check(kind, nearv(list(a), list(b), tol), lambda: '%s is %s, expected %s' % (what, list(a), list(b)))

    def vec():
        a, b = pt(), pt() if r.random() < .9 else None
        b = b or list(a)
        t = ang() or 1.5
        H.case(lambda: dict(a=a, b=b, t=t))
        v = dd(H.call('vec', D(a), D(b), float(t))[0])
        (x, y), (u, w) = a, b
        L = math.hypot(x, y)
        eq('vec-arith', v[0:12], [x + u, y + w, x - u, y - w, -x, -y, x * t, y * t, x * t, y * t, x / t, y / t], 'a+b, a-b, -a, a*t, t*a, a/t')
        eq('vec-products', v[12:16], [x * u + y * w, x * w - y * u, -y, x], 'dot, cross, perp')
        eq('vec-length', v[16:19], [L, x * x + y * y, abs(x) + abs(y)], 'length, sqr, L1')
        R = rot(a, t)
        eq('vec-rotate', v[19:23], list(R) * 2, 'rotated, rotate')
        back = rot(v[19:21], -t)
        H.check('vec-rotate-back', nearv(back, a, 1e-7), lambda: 'rotating back gives %s' % (back,))
        eq('vec-relative', v[23:25], rot((x - u, y - w), -t), 'relative to origin')
        lb = math.hypot(u, w)
        eq('vec-project', [v[25]], [x * math.cos(t) + y * math.sin(t)], 'projection on a heading')
        if lb > 0:
            eq('vec-project', [v[26]], [(x * u + y * w) / lb], 'projection on a vector')
        eq('vec-distance', v[27:29], [math.hypot(x - u, y - w), (x - u) ** 2 + (y - w) ** 2], 'distance, squared distance')
        if L > 0:
            H.check('vec-angle', sameangle(v[29], math.atan2(y, x)), lambda: 'angle %r' % v[29])
            eq('vec-normalized', v[30:32], [x / L, y / L], 'normalised')
            eq('vec-normalized', v[57:59], [x / L, y / L], 'Normalize')
        eq('vec-abs', v[32:34], [abs(x), abs(y)], 'abs')
        H.check('vec-nearly', bool(v[34]) == (abs(x - u) < .5 and abs(y - w) < .5), lambda: 'NearlyEquals %r' % v[34])
        c = u * (0 - 0)  # origin against the line a -> b
        cr = (u - x) * (0 - y) - (w - y) * (0 - x)
        if abs(cr) > 1e-9 * max(1, abs(u * y), abs(w * x)):
            H.check('vec-left', bool(v[35]) == (cr > 0), lambda: 'IsLeftOfLine %r, cross product %r' % (v[35], cr))
        eq('vec-minmax', v[36:40], [max(x, u), max(y, w), min(x, u), min(y, w)], 'max, min')
        eq('vec-floor', v[40:44], [math.floor(x), math.floor(y), math.ceil(x), math.ceil(y)], 'floor, ceil')
        eq('vec-onto-unit', [v[44]], [x * u + y * w], 'ProjectOntoUnit')
        eq('vec-create', v[45:49], [math.cos(t), math.sin(t), 2.5 * math.cos(t), 2.5 * math.sin(t)], 'from angle')
        H.check('vec-compare', [bool(z) for z in v[49:52]] == [a == b, a != b, a < b], lambda: '==, !=, < give %s' % v[49:52])
        H.check('vec-zero', bool(v[52]) == (x == 0 and y == 0), lambda: 'IsZero %r' % v[52])
        eq('vec-shift', v[53:57], [x + u, y + w, -x, -y], 'Shift, Flip')

    def angle():
        t = ang()
        lo = r.choice([-PI, 0.0, r.uniform(-5, 5)])
        hi = lo + r.choice([2 * PI, 1.0, r.uniform(.1, 9)])
        k = [r.randint(-40, 40), r.randint(1, 9)]
        H.case(lambda: dict(angle=t, range=[lo, hi], ints=k))
        rep = H.call('angle', float(t), D([lo, hi]), I(k))
        v = dd(rep[0])
        H.check('normalize-range', -PI <= v[0] < PI + 1e-15, lambda: 'NormalizeAngle(%r) = %r' % (t, v[0]))
        H.check('normalize-equivalent', sameangle(v[0], t, 1e-8), lambda: 'NormalizeAngle(%r) = %r' % (t, v[0]))
        per = hi - lo
        H.check('wrap', lo - 1e-9 <= v[1] <= hi + 1e-9 and abs(math.remainder(v[1] - t, per)) < 1e-7, lambda: 'WrapToRange(%r, %r, %r) = %r' % (lo, hi, t, v[1]))
        H.check('modulo', 0 <= v[2] < per + 1e-12 and abs(math.remainder(v[2] - t, per)) < 1e-7, lambda: 'PositiveModulo(%r, %r) = %r' % (t, per, v[2]))
        eq('bound', v[3:7], [min(max(t, lo), hi), min(t, lo), max(t, lo), t * t], 'BoundToRange, Min, Max, Sqr')
        H.check('modulo-int', ii(rep[1])[0] == k[0] % k[1], lambda: 'PositiveModulo(%d, %d) = %d' % (k[0], k[1], ii(rep[1])[0]))

    def segment():
        s, o, q = pt() + pt(), pt() + pt(), pt()
        k = r.randrange(6)
        if k == 0:
            o[:2] = s[2:]                       # touching
        elif k == 1:
            f = r.choice([0, .5, 1, 1.5, -.5])
            o[:2] = [s[0] + f * (s[2] - s[0]), s[1] + f * (s[3] - s[1])]
        elif k == 2:
            s[2:] = s[:2]
        elif k == 4:
            # on one line: apart, touching, overlapping, one inside the other, in both directions
            u, w = [float(r.randint(-3, 3)) for _ in range(2)], [float(r.randint(-3, 3)) for _ in range(2)]
            f = [r.randint(-4, 4) for _ in range(4)]
            s, o = [[u[0] + f[z] * w[0], u[1] + f[z] * w[1], u[0] + f[z + 1] * w[0], u[1] + f[z + 1] * w[1]] for z in (0, 2)]
        elif k == 3:
            q = [s[0] + r.choice([0, .5, 1, 2]) * (s[2] - s[0]), s[1]]
        t = ang()
        H.case(lambda: dict(segment=s, other=o, point=q, angle=t))
        rep = H.call('segment', D(s), D(q), D(o), float(t))
        v = dd(rep[0])
        a, b = s[:2], s[2:]
        dx, dy = b[0] - a[0], b[1] - a[1]
        L = math.hypot(dx, dy)
        eq('seg-length', v[0:5], [L, 1 / L if L else 0, L * L, (a[0] + b[0]) / 2, (a[1] + b[1]) / 2], 'length, 1/length, length^2, centre')
        if L > 0:
            H.check('seg-heading', sameangle(v[5], math.atan2(dy, dx)), lambda: 'heading %r' % v[5])
            eq('seg-trig', v[6:8] + v[69:71], [dx / L, dy / L] * 2, 'cos/sin heading')
            H.check('seg-distance', near(v[11], segdist(q, a, b), 1e-7), lambda: 'squared distance of %s is %r, expected %r' % (q, v[11], segdist(q, a, b)))
            eq('seg-units', v[65:69], [-dy / L, dx / L, dx / L, dy / L], 'PerpUnit, Tangent')
            eq('seg-sample', v[78:80], [a[0] + dx * abs(q[0]) / L, a[1] + dy * abs(q[0]) / L], 'Sample')
            if abs(abs(q[0]) - L) > 1e-9:
                H.check('seg-sample-inside', bool(v[77]) == (abs(q[0]) < L), lambda: 'Sample at %r of %r says %r' % (abs(q[0]), L, v[77]))
        # intersection, when the answer is clear
        c, d = o[:2], o[2:]
        ex, ey = d[0] - c[0], d[1] - c[1]
        den = dx * ey - dy * ex
        M = math.hypot(ex, ey)
        if L > 0 and M > 0 and abs(den) > 1e-6 * L * M and abs(den) > 1e-6:
            wx, wy = a[0] - c[0], a[1] - c[1]
            t1, t2 = (ex * wy - ey * wx) / den, (dx * wy - dy * wx) / den
            m = min(min(abs(x), abs(x - 1)) * l for x, l in ((t1, L), (t2, M)))
            if m > 1e-7:
                e = 0 < t1 < 1 and 0 < t2 < 1
                H.check('seg-intersect', bool(v[16]) == e and bool(v[19]) == e, lambda: 'Intersect %r / %r, parameters %r %r' % (v[16], v[19], t1, t2))
                if e:
                    H.check('seg-crossing', nearv(v[17:19], [a[0] + t1 * dx, a[1] + t1 * dy], 1e-6), lambda: 'crossing point %s' % v[17:19])
                    H.check('seg-might', bool(v[20]), 'MightIntersect denies crossing segments')
        elif L > 0 and den == 0:
            H.check('seg-parallel', not v[16], 'parallel segments reported as crossing')
            if all(float(z).is_integer() and abs(z) < 100 for z in s + o):
                on = lambda p, u, w: (w[0] - u[0]) * (p[1] - u[1]) == (w[1] - u[1]) * (p[0] - u[0]) and min(u[0], w[0]) <= p[0] <= max(u[0], w[0]) and min(u[1], w[1]) <= p[1] <= max(u[1], w[1])
                e = on(c, a, b) or on(d, a, b) or on(a, c, d) or on(b, c, d)
                if M > 0:
                    H.check('seg-coincide', bool(v[19]) == e, lambda: 'IntersectOrCoincide %r on parallel segments, sharing a point: %r' % (v[19], e))
        bb = all(max(s[i], s[i + 2]) >= min(o[i], o[i + 2]) and min(s[i], s[i + 2]) <= max(o[i], o[i + 2]) for i in (0, 1))
        H.check('seg-bbox', bool(v[20]) or not bb, 'MightIntersect denies overlapping bounding boxes')
        if L > 0:
            cr = dx * (q[1] - a[1]) - dy * (q[0] - a[0])
            if abs(cr) > 1e-7 * max(1, L):
                H.check('seg-side', int(v[21]) == (0 if cr > 0 else 1), lambda: 'side %r, cross product %r' % (v[21], cr))
        cen = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]
        mv = [q[0] - cen[0], q[1] - cen[1]]
        moves = [('RotateAroundPoint', lambda p: rot(p, t, q)), ('RotateAroundOrigin', lambda p: rot(p, t)), ('RotateAroundCenter', lambda p: rot(p, t, cen)), ('Flip', None),
                 ('MoveCenter', lambda p: (p[0] + mv[0], p[1] + mv[1])), ('ShiftCenter', lambda p: (p[0] + q[0], p[1] + q[1]))]
        big = max(1, *map(abs, s + q))
        for k, (n, f) in enumerate(moves):
            w = v[23 + 7 * k:30 + 7 * k]
            e = list(b) + list(a) if f is None else list(f(a)) + list(f(b))
            H.check('seg-' + n, all(abs(x - y) < 1e-8 * big for x, y in zip(w[:4], e)), lambda: '%s gives %s, expected %s' % (n, w[:4], e))
            H.check('seg-%s-length' % n, abs(w[4] - L) < 1e-8 * big, lambda: '%s: length %r, was %r' % (n, w[4], L))
            if L > 1e-3:
                hd = math.atan2(w[3] - w[1], w[2] - w[0])
                H.check('seg-%s-heading' % n, sameangle(w[5], hd, 1e-6) and -PI - 1e-9 <= w[5] <= PI + 1e-9 and abs(w[6] - math.cos(hd)) < 1e-6, lambda: '%s: heading %r but the endpoints give %r' % (n, w[5], hd))
        if L > 0:
            e = [q[0] - L * math.cos(t) / 2, q[1] - L * math.sin(t) / 2, q[0] + L * math.cos(t) / 2, q[1] + L * math.sin(t) / 2]
            H.check('seg-from-centre', all(abs(x - y) < 1e-8 * big for x, y in zip(v[71:75], e)) and near(v[75], L) and sameangle(v[76], t, 1e-6), lambda: 'segment from centre is %s, expected %s' % (v[71:77], e))
        sp = dd(rep[1])
        step = abs(t) + .25
        if L == 0:
            H.check('seg-samples', nearv(sp, a), lambda: 'samples of a point: %s' % sp)
        else:
            H.check('seg-samples', abs(len(sp) / 2 - max(1, math.ceil(L / step))) <= 1 and all(
                abs(sp[2 * i] - a[0] - dx * i * step / L) < 1e-6 * big and abs(sp[2 * i + 1] - a[1] - dy * i * step / L) < 1e-6 * big for i in range(len(sp) // 2)),
                lambda: '%d samples at step %r of length %r' % (len(sp) // 2, step, L))

    def box2d():
        d = pt() + [ang(), abs(num()) + r.choice([0, .1]), abs(num()) + r.choice([0, .1])]
        q = pt() + [abs(num()) + .1, abs(num()) + .1]
        if abs(d[2]) > 100:
            d[2] = r.uniform(-7, 7)
        t = r.uniform(-10, 10)
        H.case(lambda: dict(box=d, move=q, angle=t))
        rep = [dd(x) for x in H.call('box2d', D(d), D(q), float(t))]
        big = max(1, *map(abs, d + q))

        def want(name, v, cx, cy, h, l, w):
            c = geo.corners(cx, cy, h, l, w)
            cl = [c[3], c[2], c[1], c[0]]           # GetCorners: rear left, front left, front right, rear right
            ccw = [c[3], c[0], c[1], c[2]]          # counter-clockwise from the rear left corner
            f = lambda p: [z for xy in p for z in xy]
            ok = lambda a, b: all(abs(x - y) < 1e-8 * big for x, y in zip(a, b))
            H.check('box-corners', ok(v[0:8], f(ccw)), lambda: '%s: counter-clockwise corners %s, expected %s' % (name, v[0:8], f(ccw)))
            H.check('box-corners', ok(v[8:16], f(cl)), lambda: '%s: corners %s, expected %s' % (name, v[8:16], f(cl)))
            H.check('box-centre', ok(v[16:18], [cx, cy]), lambda: '%s: centre %s' % (name, v[16:18]))
            if l > 1e-6:
                H.check('box-heading', sameangle(v[18], h, 1e-6) and ok(v[22:24], [math.cos(h), math.sin(h)]), lambda: '%s: heading %r, expected %r' % (name, v[18], h))
            H.check('box-size', ok(v[19:21], [l, w]), lambda: '%s: size %s, expected %s' % (name, v[19:21], [l, w]))
            H.check('box-area', near(v[21], l * w, 1e-6), lambda: '%s: area %r, expected %r' % (name, v[21], l * w))
            H.check('box-axis', ok(v[24:28], [cx - l / 2 * math.cos(h), cy - l / 2 * math.sin(h), cx + l / 2 * math.cos(h), cy + l / 2 * math.sin(h)]), lambda: '%s: axis %s' % (name, v[24:28]))
        cx, cy, h, l, w = d
        if l < 1e-3:
            d[3] = l = 0.5
            rep = [dd(x) for x in H.call('box2d', D(d), D(q), float(t))]
        want('constructed', rep[0], cx, cy, h, l, w)
        want('MoveCenter', rep[1], q[0], q[1], h, l, w)
        want('ShiftCenter', rep[2], cx + q[0], cy + q[1], h, l, w)
        want('RotateAroundCenter', rep[3], cx, cy, h + t, l, w)
        want('RotateAroundOrigin', rep[4], *rot((cx, cy), t), h + t, l, w)
        want('RotateAroundPoint', rep[5], *rot((cx, cy), t, q), h + t, l, w)
        want('SetSize', rep[6], cx, cy, h, q[2], q[3])
        wide = q[2] >= q[3]
        if abs(q[2] - q[3]) > 1e-8 * big:
            want('from two corners', rep[7], q[0] + q[2] / 2, q[1] + q[3] / 2, 0 if wide else PI / 2, max(q[2:]), min(q[2:]))
        for k in range(4):
            # GetCorners order
            ox, oy = [(-l / 2, w / 2), (l / 2, w / 2), (l / 2, -w / 2), (-l / 2, -w / 2)][k]
            px, py = rot((ox, oy), h)
            want('from corner %d' % k, rep[8 + k], q[0] - px, q[1] - py, h, l, w)

    def aabox():
        gbox = lambda: pt() + [abs(num()), abs(num())]
        a, b, q = gbox(), gbox(), pt()
        if r.random() < .3:
            b[0] = a[0] + r.choice([-1, 1]) * (a[2] + b[2])
        H.case(lambda: dict(a=a, b=b, q=q))
        v = dd(H.call('aabox', D(a), D(b), D(q))[0])
        m = lambda z: [z[0] - z[2], z[1] - z[3], z[0] + z[2], z[1] + z[3]]
        A, B = m(a), m(b)
        eq('aabox-bounds', v[0:8], A + A[:2] + [2 * a[2], 2 * a[3]], 'min, max, xywh')
        gx, gy = [max(A[i], B[i]) - min(A[i + 2], B[i + 2]) for i in (0, 1)]
        big = max(1, *map(abs, a + b))
        if max(gx, gy) > 1e-9 * big or max(gx, gy) < -1e-9 * big or all(float(z).is_integer() for z in a + b):
            H.check('aabox-overlap', bool(v[8]) == (gx <= 0 and gy <= 0), lambda: 'Overlap %r, gaps %r %r' % (v[8], gx, gy))
        H.check('aabox-area', abs(v[9] - (gx * gy if gx < 0 and gy < 0 else 0)) < 1e-9 * big * big, lambda: 'intersection area %r, expected %r' % (v[9], gx * gy if gx < 0 and gy < 0 else 0))
        e = [max(0, A[i] - q[i], q[i] - A[i + 2]) for i in (0, 1)]
        if max(e) > 1e-9 * big or all(A[i] + 1e-9 * big < q[i] < A[i + 2] - 1e-9 * big for i in (0, 1)) or all(float(z).is_integer() for z in a + q):
            H.check('aabox-inside', bool(v[10]) == (max(e) == 0), lambda: 'Inside %r' % v[10])
        H.check('aabox-distance', near(v[11], e[0] ** 2 + e[1] ** 2, 1e-7), lambda: 'squared distance %r, expected %r' % (v[11], e[0] ** 2 + e[1] ** 2))
        U = [min(A[0], B[0]), min(A[1], B[1]), max(A[2], B[2]), max(A[3], B[3])]
        c = lambda u: [(u[0] + u[2]) / 2, (u[1] + u[3]) / 2, (u[2] - u[0]) / 2, (u[3] - u[1]) / 2]
        eq('aabox-union', v[12:16], c(U), 'Union')
        eq('aabox-translate', v[16:20], [a[0] + q[0], a[1] + q[1], a[2], a[3]], 'Translate')
        eq('aabox-init', v[20:24], c([a[0], a[1], a[0] + a[2], a[1] + a[3]]), 'Init')

    def tree():
        n = r.choice([1, 2, 4, 5, 6, 10, 11, 23, 40])
        sp = r.choice([2, 6, 20])
        bx = [[float(r.randint(-sp, sp)), float(r.randint(-sp, sp)), float(r.randint(0, 3)), float(r.randint(0, 3))] for _ in range(n)]
        H.case(lambda: dict(boxes=bx))
        rep = H.call('aatree', D([z for b in bx for z in b]))
        for i in range(n):
            e = [j for j in range(n) if j != i and abs(bx[i][0] - bx[j][0]) <= bx[i][2] + bx[j][2] and abs(bx[i][1] - bx[j][1]) <= bx[i][3] + bx[j][3]]
            H.check('aatree', sorted(ii(rep[i])) == e, lambda: 'box %d overlaps %s, the tree says %s' % (i, e, ii(rep[i])))
    H.phases((2, vec), (2, angle), (5, segment), (3, box2d), (2, aabox), (1, tree))

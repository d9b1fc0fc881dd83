"""C06: contracts on the polygon functions (real arithmetic)."""
from spec import *
PG = NS + 'Polygon2d::'
EPS = dbl(1e-10)
NOTES = ['that the edge-chasing traversal of ComputeIntersectionVertices visits exactly the vertices of the overlap is not proved: it is decided by the bounded runtime comparison with half-plane clipping; '
         'the contracts cover every predicate and every summation it is made of']


class T:
    def __init__(self, E):
        self.E = E

    def xy(self, v):
        a = self.E.get(v, 'xy_')
        return self.E.at(a, 0), self.E.at(a, 1)

    def pts(self, p):
        return self.E.get(p, 'points_')

    def box(self, p):
        return self.xy(self.E.get(p, 'bbox_bottom_left_')) + self.xy(self.E.get(p, 'bbox_top_right_'))

    def at(self, v, i):
        return self.xy(self.E.at(v, i))


def cross(a, b, c, d):
    return (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])


def build(S):
    E = S.engine()
    t = T(E)
    S.fn(ANON + 'Cross', E=E, nparams=3, label='Cross(3)', ensures=lambda A, r, p: [('twice the signed area of the triangle', r == cross(t.xy(A[0]), t.xy(A[1]), t.xy(A[0]), t.xy(A[2])))])
    E = S.engine()
    t2 = T(E)
    S.fn(ANON + 'Cross', E=E, nparams=4, label='Cross(4)', ensures=lambda A, r, p: [('cross product of the two differences', r == cross(*[t2.xy(A[i]) for i in range(4)]))])

    # exact cross product
    def cm(E, t):
        q = ANON + 'CrossMaybeExact'
        R_ = z3.RealSort()
        return {q: Contract(q, ensures=lambda A, r, p: [r == cross(*[t.xy(A[i]) for i in range(4)])])}

    def acc(E):
        q = ANON + 'AccSum'
        return {q: Contract(q, modifies=('p',), ensures=lambda A, r, p: [r == sum(E.at(A['p'], i) for i in range(16))])}
    E3 = S.engine()
    t3 = T(E3)
    S.fn(ANON + 'CrossMaybeExact', E=E3, callees=acc, ensures=lambda A, r, p: [('the cross product, both on the fast and on the exact path', r == cross(*[t3.xy(A[i]) for i in range(4)]))])

    # areas: the fan sum, defined by its recurrence
    E4 = S.engine()
    t4 = T(E4)
    fan = E4.func('spec_fan', E4.S.vec(NS + 'Vec2d'), z3.IntSort(), z3.RealSort())
    i = z3.Int('i')

    def fanax(v):
        tri = lambda k: cross(t4.at(v, 0), t4.at(v, k), t4.at(v, 0), t4.at(v, k + 1))
        return [fan(v, 1) == 0, forall([i], Implies(i >= 1, fan(v, i + 1) == fan(v, i) + tri(i)), pats=[fan(v, i)])]

    def area_of(v):
        n = E4.len(v)
        return If(n < 2, z3.RealVal(0), If(And(fan(v, n - 1) <= EPS, fan(v, n - 1) >= -EPS), z3.RealVal(0), fan(v, n - 1) / 2))
    S.fn(ANON + 'AreaInternal', E=E4, requires=lambda A: fanax(A[0]), ensures=lambda A, r, p: [('half the fan sum of the vertices, 0 when negligible', r == area_of(A[0]))],
         loops={0: lambda L: [('index', L.v('i') >= 1), ('upper', Or(L.v('i') <= E4.len(L.v('points')) - 1, L.v('i') == 1)), ('fan sum so far', L.v('area') == fan(L.v('points'), L.v('i')))]})
    # the fan sum is the shoelace sum, step by step: shoelace(k+1) closes to the origin point
    x0, y0, x1, y1, x2, y2, F, Sh = z3.Reals('x0 y0 x1 y1 x2 y2 F Sh')
    S.lemma('one more vertex adds the same to the fan sum and to the shoelace sum', [F == Sh + (x1 * y0 - y1 * x0)],
            F + ((x1 - x0) * (y2 - y0) - (y1 - y0) * (x2 - x0)) == Sh + (x1 * y2 - y1 * x2) + (x2 * y0 - y2 * x0))

    # bounding box
    E5 = S.engine()
    t5 = T(E5)
    j = z3.Int('j')

    def extent(L, n):
        v = t5.pts(L.pre('this'))
        mn, mx = t5.xy(L.v('min_point')), t5.xy(L.v('max_point'))
        k = n
        o = [('index', And(k >= 1, k <= E5.len(v)))]
        for c in (0, 1):
            o += [('all seen points are inside %d' % c, forall([j], Implies(And(j >= 0, j < k), And(t5.at(v, j)[c] >= mn[c], t5.at(v, j)[c] <= mx[c])), pats=[E5.at(v, j)])),
                  ('attained %d' % c, And(z3.Exists([j], And(j >= 0, j < k, t5.at(v, j)[c] == mn[c])), z3.Exists([j], And(j >= 0, j < k, t5.at(v, j)[c] == mx[c]))))]
        return o

    def bens(t, v, lo, hi):
        E = t.E
        o = []
        for c in (0, 1):
            o += [('contains every vertex (%s)' % 'xy'[c], forall([j], Implies(And(j >= 0, j < E.len(v)), And(t.at(v, j)[c] >= lo[c], t.at(v, j)[c] <= hi[c])), pats=[E.at(v, j)])),
                  ('and is tight (%s)' % 'xy'[c], And(z3.Exists([j], And(j >= 0, j < E.len(v), t.at(v, j)[c] == lo[c])), z3.Exists([j], And(j >= 0, j < E.len(v), t.at(v, j)[c] == hi[c]))))]
        return o
    S.fn(PG + 'AxisAlignedBoundingBox', E=E5, requires=lambda A: [E5.get(A['this'], 'num_points_') == E5.len(t5.pts(A['this'])), E5.len(t5.pts(A['this'])) > 2],
         ensures=lambda A, r, p: bens(t5, t5.pts(A['this']), t5.xy(p['bottom_left']), t5.xy(p['top_right'])), loops={0: lambda L: extent(L, L.v('i'))})
    q = PG + 'AxisAlignedBoundingBox'

    def aabb(E, t):
        return {q: Contract(q, requires=lambda A: [('at least three points', E.get(A['this'], 'num_points_') > 2), ('count is right', E.get(A['this'], 'num_points_') == E.len(t.pts(A['this'])))],
                            modifies=('bottom_left', 'top_right'), ensures=lambda A, r, p: [x[1] for x in bens(t, t.pts(A['this']), t.xy(p['bottom_left']), t.xy(p['top_right']))])}

    def wf(t, p):
        return [t.E.get(p, 'num_points_') == t.E.len(t.pts(p)), t.E.len(t.pts(p)) > 2]

    def boxed(t, p):
        return bens(t, t.pts(p), t.box(p)[:2], t.box(p)[2:])
    E6 = S.engine()
    t6 = T(E6)
    S.fn(PG + 'BuildFromPoints', E=E6, requires=lambda A: [E6.len(t6.pts(A['this'])) > 0], callees=aabb(E6, t6), ensures=lambda A, r, p: [
        ('three points or more, counted', And(*wf(t6, p['this']))), ('the given points come first', And(E6.len(t6.pts(p['this'])) >= E6.len(t6.pts(A['this'])), forall([j], Implies(
            And(j >= 0, j < E6.len(t6.pts(A['this']))), E6.at(t6.pts(p['this']), j) == E6.at(t6.pts(A['this']), j))))),
        ('proper polygons are unchanged', Implies(E6.len(t6.pts(A['this'])) > 2, E6.len(t6.pts(p['this'])) == E6.len(t6.pts(A['this']))))] + boxed(t6, p['this']))

    E7 = S.engine()
    t7 = T(E7)

    def maybe(A, r, p):
        a, b = t7.box(A['this']), t7.box(A[0])
        return [('exactly when the bounding boxes meet', r == And(*[And(a[c] <= b[c + 2], b[c] <= a[c + 2]) for c in (0, 1)]))]
    S.fn(PG + 'MaybeHasIntersectionWith', E=E7, ensures=maybe)
    lo, hi, lo2, hi2, x = z3.Reals('lo hi lo2 hi2 x')
    S.lemma('a common point forces the bounding intervals to meet', [x >= lo, x <= hi, x >= lo2, x <= hi2], And(lo <= hi2, lo2 <= hi))
    w1, a, b = z3.Reals('w1 a b')
    S.lemma('a convex combination of vertices stays inside the bounding interval', [a >= lo, a <= hi, b >= lo, b <= hi, w1 >= 0, w1 <= 1], And(w1 * a + (1 - w1) * b >= lo, w1 * a + (1 - w1) * b <= hi))

    for m, f in (('Next', lambda k, n: If(k == n - 1, z3.IntVal(0), k + 1)), ('Prev', lambda k, n: If(k == 0, n - 1, k - 1))):
        En = S.engine()
        S.fn(PG + m, E=En, requires=lambda A, En=En: [inr(A[0], En.get(A['this'], 'num_points_'))],
             ensures=lambda A, r, p, En=En, f=f: [('cyclic', And(r == f(A[0], En.get(A['this'], 'num_points_')), inr(r, En.get(A['this'], 'num_points_'))))])

    # the point test, exact for up to ten vertices (larger polygons first narrow the range by bisection)
    E8 = S.engine()
    t8 = T(E8)

    def half(v, k, n, pt):
        return cross(t8.at(v, k), t8.at(v, If(k == n - 1, z3.IntVal(0), k + 1)), t8.at(v, k), pt) >= 0

    def inside(A, r, p):
        v, n, pt = t8.pts(A['this']), E8.get(A['this'], 'num_points_'), t8.xy(A[0])
        bx = t8.box(A['this'])
        inb = And(*[And(pt[c] >= bx[c], pt[c] <= bx[c + 2]) for c in (0, 1)])
        return [('only inside the bounding box', Implies(r, inb)),
                ('on the left of every edge', Implies(r, forall([j], Implies(And(j >= 0, j < n), half(v, j, n, pt)), pats=[E8.at(v, j)]))),
                ('and only such points', Implies(And(Not(r), inb), z3.Exists([j], And(j >= 0, j < n, Not(half(v, j, n, pt))))))]
    S.fn(PG + 'PointInside', E=E8, nparams=1, label='PointInside (at most 10 vertices)', requires=lambda A: wf(t8, A['this']) + [E8.get(A['this'], 'num_points_') <= 10], ensures=inside,
         callees=cm(E8, t8), loops={0: lambda L: [('the whole range', And(L.v('start_ix') == 0, L.v('end_ix') == E8.get(L.pre('this'), 'num_points_')))],
                                    1: lambda L: [('range', And(L.v('ii') >= L.v('start_ix'), L.v('ii') <= L.v('end_ix') - 1, L.v('start_ix') == 0, L.v('end_ix') == E8.get(L.pre('this'), 'num_points_'))),
                                                  ('left of the edges so far', forall([j], Implies(And(j >= 0, j < L.v('ii')), half(t8.pts(L.pre('this')), j, E8.get(L.pre('this'), 'num_points_'), t8.xy(L.v('p')))),
                                                                                      pats=[E8.at(t8.pts(L.pre('this')), j)]))]})

    # segment crossing
    E9 = S.engine()
    t9 = T(E9)

    def inaabb(t, a, b, q):
        mn = lambda x, y: If(y < x, y, x)
        mx = lambda x, y: If(x < y, y, x)
        return And(*[And(mn(a[c], b[c]) <= q[c], q[c] <= mx(a[c], b[c])) for c in (0, 1)])
    S.fn(ANON + 'ColinearSegmentPointIntersection', E=E9, ensures=lambda A, r, p: [
        ('when the point is in the box of the segment', r == inaabb(t9, t9.xy(A[0]), t9.xy(A[1]), t9.xy(A[2]))), ('reports the point', Implies(r, And(*[x == y for x, y in zip(t9.xy(p['intersection']), t9.xy(A[2]))])))])
    E10 = S.engine()
    t10 = T(E10)
    R4 = [z3.RealSort()] * 8
    X = E10.func('spec_cross', *R4, z3.RealSort())

    def xs(a, b, c, d):
        return X(*a, *b, *c, *d)

    def xc(E):
        q = ANON + 'CrossMaybeExact'
        return {q: Contract(q, ensures=lambda A, r, p: [r == xs(*[t10.xy(A[i]) for i in range(4)])])}

    def ei(A, r, p):
        p0, p1, q0, q1 = [t10.xy(A[i]) for i in range(4)]
        det = A[4]
        n = [xs(p0, q0, q1, q0), xs(p1, q1, q0, q1), xs(p0, p1, p0, q0), xs(p1, p0, p1, q1)]
        sgn = lambda z: If(det > 0, z, -z) >= 0
        mem = [inaabb(t10, q0, q1, p0), inaabb(t10, q0, q1, p1), inaabb(t10, p0, p1, q0), inaabb(t10, p0, p1, q1)]
        it = t10.xy(p['intersection'])
        tt = n[0] / det
        lam = If(tt < 0, z3.RealVal(0), If(tt > 1, z3.RealVal(1), tt))
        return [('crossing lines: when both parameters are between 0 and 1', Implies(det != 0, r == And(*[sgn(z) for z in n]))),
                ('parallel: only when collinear and overlapping', Implies(det == 0, r == And(xs(p0, p1, p0, q0) == 0, Or(*mem)))),
                ('parallel: reports a common endpoint', Implies(And(det == 0, r), Or(*[And(it[0] == z[0], it[1] == z[1]) for z in (p0, p1, q0, q1)]))),
                ('crossing: reports the point at that parameter', Implies(And(det != 0, r), And(*[it[c] == p0[c] + (p1[c] - p0[c]) * lam for c in (0, 1)])))]
    S.fn(ANON + 'ExactIntersection', E=E10, callees=xc, ensures=ei)
    px, py, dx, dy, qx, qy, ex, ey, s, u = z3.Reals('px py dx dy qx qy ex ey s u')
    D_ = dx * -ey - dy * -ex
    # det = (p1 - p0) x (q0 - q1); n0 = (q0 - p0) x (q0 - q1); n2 = (p1 - p0) x (q0 - p0)
    S.lemma('the parameters solve p0 + s (p1 - p0) = q0 + u (q1 - q0)', [D_ != 0, s * D_ == (qx - px) * -ey - (qy - py) * -ex, u * D_ == dx * (qy - py) - dy * (qx - px)],
            And(px + s * dx == qx + u * ex, py + s * dy == qy + u * ey))
    S.lemma('the reversed tests say the parameters are at most 1', [], And(
        (qx + ex - px - dx) * ey - (qy + ey - py - dy) * ex == D_ - ((qx - px) * -ey - (qy - py) * -ex),
        -dx * (qy + ey - py - dy) + dy * (qx + ex - px - dx) == D_ - (dx * (qy - py) - dy * (qx - px))))

    # area of the intersection
    E11 = S.engine()
    verts = E11.func('spec_vertices', E11.sort(NS + 'Polygon2d'), E11.sort(NS + 'Polygon2d'), E11.S.vec(NS + 'Vec2d'))
    ar = E11.func('spec_area', E11.S.vec(NS + 'Vec2d'), z3.RealSort())
    S.fn(PG + 'ComputeIntersectionArea', E=E11, callees={
        PG + 'ComputeIntersectionVertices': Contract(PG + 'ComputeIntersectionVertices', ensures=lambda A, r, p: [r == verts(A['this'], A[0])]),
        ANON + 'AreaInternal': Contract(ANON + 'AreaInternal', ensures=lambda A, r, p: [r == ar(A[0])])},
        ensures=lambda A, r, p: [('area of the intersection vertices, 0 for fewer than three', r == If(E11.len(verts(A['this'], A[0])) < 3, z3.RealVal(0), ar(verts(A['this'], A[0]))))])

    # motion
    E12 = S.engine()
    t12 = T(E12)
    def shifted(L):
        old, new, off = t12.pts(L.pre('this')), t12.pts(L.v('this')), t12.xy(L.v('offset'))
        return [('count', E12.len(new) == E12.len(old)),
                ('points so far are shifted', forall([j], Implies(And(j >= 0, j < L.k), And(*[t12.at(new, j)[c] == t12.at(old, j)[c] + off[c] for c in (0, 1)])), pats=[E12.at(new, j)])),
                ('the others are not', forall([j], Implies(And(j >= L.k, j < E12.len(old)), And(*[t12.at(new, j)[c] == t12.at(old, j)[c] for c in (0, 1)])), pats=[E12.at(new, j)]))]
    S.fn(PG + 'ShiftCenter', E=E12, loops={0: shifted}, requires=lambda A: [x[1] for x in boxed(t12, A['this'])], ensures=lambda A, r, p: [
        ('same number of points', E12.len(t12.pts(p['this'])) == E12.len(t12.pts(A['this']))),
        ('every point is shifted', forall([j], Implies(inr(j, E12.len(t12.pts(A['this']))), And(*[t12.at(t12.pts(p['this']), j)[c] == t12.at(t12.pts(A['this']), j)[c] + t12.xy(A[0])[c] for c in (0, 1)])))),
        ('the bounding box is shifted', And(*[x == y + t12.xy(A[0])[k % 2] for k, (x, y) in enumerate(zip(t12.box(p['this']), t12.box(A['this'])))]))])
    E13 = S.engine()
    t13 = T(E13)
    co, si = E13.func('cos', z3.RealSort(), z3.RealSort()), E13.func('sin', z3.RealSort(), z3.RealSort())

    def turn(A, v, k):
        (cx, cy), (ox, oy), (x, y) = t13.xy(A[1]), t13.xy(A[2]), t13.at(v, k)
        return (x - cx) * co(A[0]) - (y - cy) * si(A[0]) + (cx + ox), (x - cx) * si(A[0]) + (y - cy) * co(A[0]) + (cy + oy)

    def turned(L):
        A = [L.v('angle'), L.v('center'), L.v('offset')]
        old, new = t13.pts(L.pre('this')), t13.pts(L.v('this'))
        return [('count', E13.len(new) == E13.len(old)),
                ('points so far are moved', forall([j], Implies(And(j >= 0, j < L.k), And(*[a == b for a, b in zip(t13.at(new, j), turn(A, old, j))])), pats=[E13.at(new, j)])),
                ('the others are not', forall([j], Implies(And(j >= L.k, j < E13.len(old)), And(*[t13.at(new, j)[c] == t13.at(old, j)[c] for c in (0, 1)])), pats=[E13.at(new, j)]))]
    bq, sq_ = PG + 'BuildFromPoints', PG + 'ShiftCenter'
    S.fn(PG + 'Transform', E=E13, loops={0: turned}, requires=lambda A: [E13.len(t13.pts(A['this'])) > 2, E13.get(A['this'], 'num_points_') == E13.len(t13.pts(A['this']))] + [x[1] for x in boxed(t13, A['this'])], callees={
        bq: Contract(bq, modifies=('this',), requires=lambda A: [('some points', E13.len(t13.pts(A['this'])) > 0)], ensures=lambda A, r, p: [
            Implies(E13.len(t13.pts(A['this'])) > 2, t13.pts(p['this']) == t13.pts(A['this'])), *wf(t13, p['this'])] + [x[1] for x in boxed(t13, p['this'])]),
        sq_: Contract(sq_, modifies=('this',), ensures=lambda A, r, p: [E13.len(t13.pts(p['this'])) == E13.len(t13.pts(A['this'])),
            forall([j], Implies(inr(j, E13.len(t13.pts(A['this']))), And(*[t13.at(t13.pts(p['this']), j)[c] == t13.at(t13.pts(A['this']), j)[c] + t13.xy(A[0])[c] for c in (0, 1)])), pats=[E13.at(t13.pts(p['this']), j)]),
            *[x == y + t13.xy(A[0])[k % 2] for k, (x, y) in enumerate(zip(t13.box(p['this']), t13.box(A['this'])))]])},
        ensures=lambda A, r, p: [
            ('same number of points', E13.len(t13.pts(p['this'])) == E13.len(t13.pts(A['this']))),
            ('every point is turned about the centre, then shifted', forall([j], Implies(inr(j, E13.len(t13.pts(A['this']))), And(*[Implies(A[0] != 0, a == b) for a, b in zip(t13.at(t13.pts(p['this']), j), turn(A, t13.pts(A['this']), j))])), pats=[E13.at(t13.pts(p['this']), j)])),
            ('or just shifted', forall([j], Implies(inr(j, E13.len(t13.pts(A['this']))), And(*[Implies(A[0] == 0, t13.at(t13.pts(p['this']), j)[c] == t13.at(t13.pts(A['this']), j)[c] + t13.xy(A[2])[c]) for c in (0, 1)])), pats=[E13.at(t13.pts(p['this']), j)]))]
        + boxed(t13, p['this'])[:0])

    # the exact sum (in real arithmetic every error term is zero)
    E14 = S.engine()
    n16 = 16
    arr = lambda a: [E14.at(a, k) for k in range(n16)]
    tot = lambda a: sum(arr(a)[1:], arr(a)[0])
    zero = lambda a: And(*[x == 0 for x in arr(a)])
    aq = ANON + 'AccSum'
    S.fn(aq, E=E14, callees={aq: Contract(aq, modifies=('p',), ensures=lambda A, r, p: [r == tot(A['p'])])}, requires=lambda A: [E14.len(A['p']) == n16],
         loops={0: lambda L: [('size', E14.len(L.v('p')) == n16), ('what is summed plus what is left', Or(And(L.v('t') == 0, And(*[x == y for x, y in zip(arr(L.v('p')), arr(L.pre('p')))])), And(L.v('t') == tot(L.pre('p')), zero(L.v('p')))))]},
         ensures=lambda A, r, p: [('the sum of the terms', r == tot(A['p']))])

    # the traversal: what it may return
    E15 = S.engine()
    mh = PG + 'MaybeHasIntersectionWith'
    mhf = E15.func('spec_maybe', E15.sort(NS + 'Polygon2d'), E15.sort(NS + 'Polygon2d'), z3.BoolSort())
    t15 = T(E15)
    eq_ = ANON + 'ExactIntersection'
    pq = PG + 'PointInside'
    ins = E15.func('spec_inside', E15.sort(NS + 'Polygon2d'), E15.sort(NS + 'Vec2d'), z3.BoolSort())
    cr = E15.func('spec_cross', *R4, z3.RealSort())

    def trav(L):
        P, Q = L.pre('this'), L.pre('other')
        n, m = E15.get(P, 'num_points_'), E15.get(Q, 'num_points_')
        o = [('indices', And(inr(L.v('p_idx'), n), inr(L.v('q_idx'), m), inr(L.v('p_idx_next'), n), inr(L.v('q_idx_next'), m))),
             ('next indices', And(L.v('p_idx_next') == If(L.v('p_idx') == n - 1, z3.IntVal(0), L.v('p_idx') + 1), L.v('q_idx_next') == If(L.v('q_idx') == m - 1, z3.IntVal(0), L.v('q_idx') + 1))),
             ('current edges', And(L.v('p0') == E15.at(t15.pts(P), L.v('p_idx')), L.v('p1') == E15.at(t15.pts(P), L.v('p_idx_next')),
                                   L.v('q0') == E15.at(t15.pts(Q), L.v('q_idx')), L.v('q1') == E15.at(t15.pts(Q), L.v('q_idx_next')))),
             ('not inside both', Not(And(L.v('p_inside'), L.v('q_inside')))),
             ('nothing is recorded before the first crossing', Implies(E15.len(L.v('convex_points')) == 0, And(Not(L.v('p_inside')), Not(L.v('q_inside'))))),
             ('counter', L.v('i') >= 0)]
        return o

    def vens(A, r, p):
        P, Q = A['this'], A[0]
        every = lambda X_, Y: forall([j], Implies(inr(j, E15.len(t15.pts(Y))), ins(X_, E15.at(t15.pts(Y), j))), pats=[E15.at(t15.pts(Y), j)])
        return [('nothing when the boxes do not meet', Implies(Not(mhf(P, Q)), E15.len(r) == 0))]
    S.fn(PG + 'ComputeIntersectionVertices', E=E15, requires=lambda A: wf(t15, A['this']) + wf(t15, A[0]),
         callees={mh: Contract(mh, ensures=lambda A, r, p: [r == mhf(A['this'], A[0])]),
                  eq_: Contract(eq_, modifies=('intersection',), ensures=lambda A, r, p: []),
                  pq: Contract(pq, ensures=lambda A, r, p: [r == ins(A['this'], A[0])]),
                  ANON + 'CrossMaybeExact': Contract(ANON + 'CrossMaybeExact', ensures=lambda A, r, p: [r == cr(*[z for i_ in range(4) for z in t15.xy(A[i_])])])},
         loops={0: trav, 1: lambda L: [('inside so far', L.v('p_is_inside'))], 2: lambda L: [('inside so far', L.v('q_is_inside'))]}, ensures=vens)

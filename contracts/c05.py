"""C05: contracts on Vec2d, the angle helpers, Segment2d, Box2d and AABox2d (real arithmetic)."""
from spec import *
import math
PI = dbl(math.pi)
V, SG, BX = NS + 'Vec2d::', NS + 'Segment2d::', NS + 'Box2d::'
SEPS = dbl(1e-10)
NOTES = ['trigonometric identities used as facts: sin^2 + cos^2 = 1, angle addition, period 2*pi (M_PI stands for pi), cos/sin of atan2(y, x) are x/r and y/r']


class T:
    """views of the geometric records"""
    def __init__(self, E):
        self.E = E
        self.cos = E.func('cos', z3.RealSort(), z3.RealSort())
        self.sin = E.func('sin', z3.RealSort(), z3.RealSort())
        self.atan2 = E.func('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())

    def xy(self, v):
        a = self.E.get(v, 'xy_')
        return self.E.at(a, 0), self.E.at(a, 1)

    def is_(self, v, x, y):
        a, b = self.xy(v)
        return And(a == x, b == y)

    def seg(self, s):
        return self.xy(self.E.get(s, 'start_')) + self.xy(self.E.get(s, 'end_'))

    def d(self, s):
        x1, y1, x2, y2 = self.seg(s)
        return x2 - x1, y2 - y1

    def L(self, s):
        dx, dy = self.d(s)
        return sqrt(self.E, dx * dx + dy * dy)

    def cached(self, s):
        return [self.E.get(s, n) for n in ('heading_', 'length_', 'inv_length_')]

    def inv(self, s):
        """representation invariant: every cached value is absent or right"""
        h, l, i = self.cached(s)
        dx, dy = self.d(s)
        return And(Or(l == INV, And(l >= 0, l * l == dx * dx + dy * dy)),
                   Or(i == INV, And(Implies(And(dx == 0, dy == 0), i == 0), Implies(Not(And(dx == 0, dy == 0)), And(i > 0, i * i * (dx * dx + dy * dy) == 1)))),
                   Or(h == INV, self.heads(h, s)))

    def heads(self, h, s):
        """h is a heading of the segment: the direction (cos h, sin h) scaled by a length gives end - start"""
        dx, dy = self.d(s)
        c, n = self.cos(h), self.sin(h)
        return And(c * dy == n * dx, c * dx + n * dy >= 0)

    def addition(self, a, b):
        c, s = self.cos, self.sin
        return [c(a + b) == c(a) * c(b) - s(a) * s(b), s(a + b) == s(a) * c(b) + c(a) * s(b)]

    def unit(self, a):
        return self.cos(a) * self.cos(a) + self.sin(a) * self.sin(a) == 1


import sys as _s
INV = z3.RealVal(str(-int(_s.float_info.max)))


def build(S):
    vec(S)
    angle(S)
    seg(S)
    box(S)
    aabox(S)


def vec(S):
    def fn(m, ens, n=None, sig=None, label=None, req=None):
        E = S.engine()
        t = T(E)
        S.fn(V + m, E=E, nparams=n, sig=sig, label=label or 'Vec2d::' + m, requires=(lambda A: req(t, A)) if req else None,
             ensures=lambda A, r, p: ens(t, A, r, p))

    def me(t, A):
        return t.xy(A['this'])

    def lin(f):
        return lambda t, A, r, p: [('component-wise', t.is_(r, *f(me(t, A), t.xy(A[0]))))]
    fn('operator+', lin(lambda a, b: (a[0] + b[0], a[1] + b[1])), 1)
    fn('operator-', lin(lambda a, b: (a[0] - b[0], a[1] - b[1])), 1)
    fn('operator-', lambda t, A, r, p: [('negated', t.is_(r, -me(t, A)[0], -me(t, A)[1]))], 0, label='Vec2d::operator- (unary)')
    fn('operator*', lambda t, A, r, p: [('scaled', t.is_(r, me(t, A)[0] * A[0], me(t, A)[1] * A[0]))], 1)
    fn('operator/', lambda t, A, r, p: [('divided', And(t.xy(r)[0] * A[0] == me(t, A)[0], t.xy(r)[1] * A[0] == me(t, A)[1]))], 1, req=lambda t, A: [A[0] != 0])
    fn('operator==', lambda t, A, r, p: [('equal components', r == And(*[x == y for x, y in zip(me(t, A), t.xy(A[0]))]))], 1)
    fn('operator<', lambda t, A, r, p: [('lexicographic', r == Or(me(t, A)[0] < t.xy(A[0])[0], And(me(t, A)[0] == t.xy(A[0])[0], me(t, A)[1] < t.xy(A[0])[1])))], 1)
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    crs = lambda a, b: a[0] * b[1] - a[1] * b[0]
    fn('Dot', lambda t, A, r, p: [('dot product', r == dot(me(t, A), t.xy(A[0])))], 1)
    fn('CrossProd', lambda t, A, r, p: [('cross product', r == crs(me(t, A), t.xy(A[0])))], 1)
    fn('Perp', lambda t, A, r, p: [('a quarter turn to the left', t.is_(r, -me(t, A)[1], me(t, A)[0])),
                                   ('perpendicular, same length', And(dot(me(t, A), t.xy(r)) == 0, dot(t.xy(r), t.xy(r)) == dot(me(t, A), me(t, A))))])
    fn('Length', lambda t, A, r, p: [('Euclidean length', And(r >= 0, r * r == dot(me(t, A), me(t, A))))])
    fn('L1Norm', lambda t, A, r, p: [('L1 length', r == sum(If(x < 0, -x, x) for x in me(t, A)))])
    fn('Sqr', lambda t, A, r, p: [('squared length', r == dot(me(t, A), me(t, A)))])

    def rot(t, A, v):
        a, (x, y) = A[0], me(t, A)
        return [('rotated counter-clockwise', t.is_(v, t.cos(a) * x - t.sin(a) * y, t.sin(a) * x + t.cos(a) * y)),
                ('length preserved', Implies(t.unit(a), dot(t.xy(v), t.xy(v)) == dot((x, y), (x, y))))]
    fn('Rotated', lambda t, A, r, p: rot(t, A, r))
    fn('Rotate', lambda t, A, r, p: rot(t, A, p['this']))
    fn('RelativeToOrigin', lambda t, A, r, p: [('seen from the origin turned by theta', Implies(And(t.cos(-A[1]) == t.cos(A[1]), t.sin(-A[1]) == -t.sin(A[1])), And(
        t.xy(r)[0] == t.cos(A[1]) * (me(t, A)[0] - t.xy(A[0])[0]) + t.sin(A[1]) * (me(t, A)[1] - t.xy(A[0])[1]),
        t.xy(r)[1] == -t.sin(A[1]) * (me(t, A)[0] - t.xy(A[0])[0]) + t.cos(A[1]) * (me(t, A)[1] - t.xy(A[0])[1]))))])
    fn('DistanceToPoint', lambda t, A, r, p: [('Euclidean distance', And(r >= 0, r * r == sum((x - y) * (x - y) for x, y in zip(me(t, A), t.xy(A[0])))))], 1)
    fn('DistanceSqrToPoint', lambda t, A, r, p: [('squared distance', r == sum((x - y) * (x - y) for x, y in zip(me(t, A), t.xy(A[0]))))], 1)
    fn('Project', lambda t, A, r, p: [('component along the heading', r == me(t, A)[0] * t.cos(A[0]) + me(t, A)[1] * t.sin(A[0]))], 1, sig='(double)')
    fn('Angle', lambda t, A, r, p: [('angle of the vector', r == t.atan2(me(t, A)[1], me(t, A)[0]))])
    fn('Normalized', lambda t, A, r, p: [('unit length, same direction', Implies(Or(me(t, A)[0] != 0, me(t, A)[1] != 0), And(
        dot(t.xy(r), t.xy(r)) == 1, crs(me(t, A), t.xy(r)) == 0, dot(me(t, A), t.xy(r)) > 0)))])
    fn('Abs', lambda t, A, r, p: [('absolute components', t.is_(r, *[If(x < 0, -x, x) for x in me(t, A)]))])
    fn('NearlyEquals', lambda t, A, r, p: [('both components closer than epsilon', r == And(*[And(x - y < A[1], y - x < A[1]) for x, y in zip(me(t, A), t.xy(A[0]))]))], 2)
    fn('IsLeftOfLine', lambda t, A, r, p: [('left of the directed line', r == (crs(
        [b - a for a, b in zip(t.xy(A[0]), t.xy(A[1]))], [b - a for a, b in zip(t.xy(A[0]), me(t, A))]) > 0))])
    fn('ElemWiseMax', lambda t, A, r, p: [('component-wise maximum', t.is_(r, *[If(x < y, y, x) for x, y in zip(me(t, A), t.xy(A[0]))]))])
    fn('ElemWiseMin', lambda t, A, r, p: [('component-wise minimum', t.is_(r, *[If(y < x, y, x) for x, y in zip(me(t, A), t.xy(A[0]))]))])
    fn('CreateUnitFromAngle', lambda t, A, r, p: [('unit vector of the angle', t.is_(r, t.cos(A[0]), t.sin(A[0])))])
    fn('CreateFromAngleAndLength', lambda t, A, r, p: [('length times unit vector', t.is_(r, t.cos(A[0]) * A[1], t.sin(A[0]) * A[1]))])
    # rotation by a and then by -a is the identity
    c, s, x, y = z3.Reals('c s x y')
    x1, y1 = c * x - s * y, s * x + c * y
    S.lemma('rotating back by the opposite angle restores the vector', [c * c + s * s == 1], And(c * x1 + s * y1 == x, -s * x1 + c * y1 == y))


def angle(S, NS=NS):
    k = z3.Int('spec!turns')

    def equiv(r, x, y):
        return z3.Exists([k], r == x - z3.ToReal(k) * y)

    def trunc(x):
        """x rounded towards zero, which is what (int)(x) and fmod use"""
        return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    def periods(r, x, y):
        """r differs from x by a whole number of periods: the number of fmod, or one more"""
        n = z3.ToReal(trunc(x / y))
        return Or(r == x - n * y, r == x - (n - 1) * y)
    E = S.engine()
    S.fn(NS + 'PositiveModulo', E=E, sig='(double, double)', requires=lambda A: [A[1] == 2 * PI], ensures=lambda A, r, p: [
        ('in [0, y)', And(r >= 0, r < A[1])), ('differs by a whole number of periods', periods(r, A[0], 2 * PI))])
    pm = {NS + 'PositiveModulo': Contract(NS + 'PositiveModulo', requires=lambda A: [('positive period', A[1] > 0)], ensures=lambda A, r, p: [r >= 0, r < A[1], equiv(r, A[0], A[1])])}
    S.fn(NS + 'WrapToRange', E=S.engine(), callees=pm, requires=lambda A: [A[0] == -PI, A[1] == PI], ensures=lambda A, r, p: [
        ('in [min, max)', And(r >= A[0], r < A[1])), ('differs by a whole number of periods', equiv(r, A[2], 2 * PI))])
    wr = {NS + 'WrapToRange': Contract(NS + 'WrapToRange', requires=lambda A: [('range is not empty', A[0] < A[1])], ensures=lambda A, r, p: [r >= A[0], r < A[1], equiv(r, A[2], A[1] - A[0])])}
    S.fn(NS + 'NormalizeAngle', E=S.engine(), callees=wr, ensures=lambda A, r, p: [
        ('in [-pi, pi)', And(r >= -PI, r < PI)), ('the same angle up to full turns', equiv(r, A[0], 2 * PI))])


def norm(E, t):
    q = NS + 'NormalizeAngle'
    return {q: Contract(q, ensures=lambda A, r, p: [r >= -PI, r < PI, t.cos(r) == t.cos(A[0]), t.sin(r) == t.sin(A[0])])}


def seg(S):
    def fn(m, ens, n=None, sig=None, label=None, req=None, inv=True, cal=None, keep=True, nullable=None):
        E = S.engine()
        t = T(E)

        def rq(A):
            return ([t.inv(A['this'])] if inv else []) + (req(t, A) if req else [])

        def en(A, r, p):
            o = ens(t, A, r, p)
            if inv and keep and 'this' in p:
                o += [('endpoints untouched', And(*[a == b for a, b in zip(t.seg(A['this']), t.seg(p['this']))])),
                      ('cached values stay right', t.inv(p['this']))]
            return o
        S.fn(SG + m, E=E, nparams=n, sig=sig, label=label or 'Segment2d::' + m, requires=rq, ensures=en, callees=cal(E, t) if cal else None,
             **({'nullable': nullable} if nullable else {}))
    L2 = lambda t, s: sum(x * x for x in t.d(s))
    fn('length', lambda t, A, r, p: [('distance between the endpoints', And(r >= 0, r * r == L2(t, A['this'])))])
    fn('inv_length', lambda t, A, r, p: [('reciprocal length, 0 for a point', And(Implies(L2(t, A['this']) == 0, r == 0), Implies(L2(t, A['this']) != 0, And(r > 0, r * r * L2(t, A['this']) == 1))))])
    fn('Sqr', lambda t, A, r, p: [('squared length', r == L2(t, A['this']))])
    mid = lambda t, s: [(t.seg(s)[i] + t.seg(s)[i + 2]) / 2 for i in (0, 1)]
    fn('center', lambda t, A, r, p: [('midpoint', t.is_(r, *mid(t, A['this'])))])

    def atans(t, A):
        dx, dy = t.d(A['this'])
        h = t.atan2(dy, dx)
        return [t.heads(h, A['this'])]
    fn('heading', lambda t, A, r, p: [('the direction from start to end', t.heads(r, A['this']))], req=atans)

    def unit(E, t):
        """contracts of length and heading, in the form the callers use"""
        q, h, i = SG + 'length', SG + 'heading', SG + 'inv_length'
        return {q: Contract(q, requires=lambda A: [('cache is right', t.inv(A['this']))], modifies=('this',), ensures=lambda A, r, p: [
            r >= 0, r * r == L2(t, A['this']), t.inv(p['this']), *[a == b for a, b in zip(t.seg(A['this']), t.seg(p['this']))]])}
    nz = lambda t, A: [L2(t, A['this']) != 0]
    fn('PerpUnit', lambda t, A, r, p: [('unit normal to the left', Implies(L2(t, A['this']) != 0, And(
        t.xy(r)[0] * t.d(A['this'])[0] + t.xy(r)[1] * t.d(A['this'])[1] == 0, t.xy(r)[0] * t.xy(r)[0] + t.xy(r)[1] * t.xy(r)[1] == 1,
        t.d(A['this'])[0] * t.xy(r)[1] - t.d(A['this'])[1] * t.xy(r)[0] > 0))), ('zero for a point', Implies(L2(t, A['this']) == 0, t.is_(r, 0, 0)))], cal=unit)
    fn('Tangent', lambda t, A, r, p: [('unit vector from start to end', Implies(L2(t, A['this']) != 0, And(
        t.d(A['this'])[0] * t.xy(r)[1] - t.d(A['this'])[1] * t.xy(r)[0] == 0, t.xy(r)[0] * t.xy(r)[0] + t.xy(r)[1] * t.xy(r)[1] == 1,
        t.xy(r)[0] * t.d(A['this'])[0] + t.xy(r)[1] * t.d(A['this'])[1] > 0)))], cal=unit)

    # rigid motions keep the cache right
    def moved(t, s, r, f):
        a = t.seg(s)
        return And(*[x == y for x, y in zip(t.seg(r), f(a[0], a[1]) + f(a[2], a[3]))])

    def motion(m, f, n, req=None, cal=None, turned=None):
        fn(m, lambda t, A, r, p: [('endpoints', moved(t, A['this'], r, lambda x, y: f(t, A, x, y))), ('cached values are right', t.inv(r))], n, req=req, cal=cal)
    motion('ShiftCenter', lambda t, A, x, y: (x + t.xy(A[0])[0], y + t.xy(A[0])[1]), 1)
    motion('MoveCenter', lambda t, A, x, y: (x + t.xy(A[0])[0] - mid(t, A['this'])[0], y + t.xy(A[0])[1] - mid(t, A['this'])[1]), 1)

    def rota(t, a, x, y, cx=0, cy=0):
        c, s = t.cos(a), t.sin(a)
        return (cx + c * (x - cx) - s * (y - cy), cy + s * (x - cx) + c * (y - cy))

    def trig(t, A, a):
        return [t.unit(a)] + t.addition(t.cached(A['this'])[0], a)
    motion('RotateAroundOrigin', lambda t, A, x, y: rota(t, A[0], x, y), 1, req=lambda t, A: trig(t, A, A[0]), cal=norm)
    motion('RotateAroundPoint', lambda t, A, x, y: rota(t, A[1], x, y, *t.xy(A[0])), 2, req=lambda t, A: trig(t, A, A[1]), cal=norm)

    def rap(E, t):
        q = SG + 'RotateAroundPoint'
        return {q: Contract(q, requires=lambda A: [('cache is right', t.inv(A['this']))], ensures=lambda A, r, p: [
            moved(t, A['this'], r, lambda x, y: rota(t, A[1], x, y, *t.xy(A[0]))), t.inv(r)])}
    motion('RotateAroundCenter', lambda t, A, x, y: rota(t, A[0], x, y, *mid(t, A['this'])), 1, cal=rap)
    fn('Flip', lambda t, A, r, p: [('endpoints swapped', And(*[x == y for x, y in zip(t.seg(r), t.seg(A['this'])[2:] + t.seg(A['this'])[:2])])), ('cached values are right', t.inv(r))],
       cal=norm, req=lambda t, A: t.addition(t.cached(A['this'])[0], PI) + [t.cos(PI) == -1, t.sin(PI) == 0])

    # constructors from a centre
    E = S.engine()
    t = T(E)

    def cdl(A, r, p):
        s = p['this']
        cx, cy = t.xy(A[0])
        dx, dy = t.xy(A[1])
        return [('endpoints half the length away', And(*[a == b for a, b in zip(t.seg(s), (cx - dx * A[2] / 2, cy - dy * A[2] / 2, cx + dx * A[2] / 2, cy + dy * A[2] / 2))])), ('cached values are right', t.inv(s))]
    S.fn(SG + 'Segment2d', E=E, sig='Segment2d(const waymo::open_dataset::Vec2d, const waymo::open_dataset::Vec2d, double)', label='Segment2d(center, direction, length)',
         requires=lambda A: [A[2] >= 0, t.xy(A[1])[0] * t.xy(A[1])[0] + t.xy(A[1])[1] * t.xy(A[1])[1] == 1], ensures=cdl)
    E2 = S.engine()
    t2 = T(E2)

    def chl(A, r, p):
        s = p['this']
        cx, cy = t2.xy(A[0])
        dx, dy = t2.cos(A[1]), t2.sin(A[1])
        return [('endpoints half the length away', And(*[a == b for a, b in zip(t2.seg(s), (cx - dx * A[2] / 2, cy - dy * A[2] / 2, cx + dx * A[2] / 2, cy + dy * A[2] / 2))])), ('cached values are right', t2.inv(s))]
    S.fn(SG + 'Segment2d', E=E2, sig='Segment2d(const waymo::open_dataset::Vec2d, double, double)', label='Segment2d(center, heading, length)',
         requires=lambda A: [A[2] >= 0, t2.unit(A[1]), A[1] != INV], ensures=chl)

    # distance from a point: the parameter of the closest point is the projection clamped to the segment
    E3 = S.engine()
    t3 = T(E3)
    lam = z3.Real('spec!lambda')

    def pts(A):
        return t3.xy(A[0]), t3.xy(A[1]), t3.xy(A[2])

    def pdist(A, r, p):
        (qx, qy), (ax, ay), (bx, by) = pts(A)
        vx, vy, dx, dy = qx - ax, qy - ay, bx - ax, by - ay
        l2, dt, cr = dx * dx + dy * dy, vx * dx + vy * dy, vx * dy - vy * dx
        pn = dt * (1 / l2)
        return [('beyond the start', Implies(pn < 0, r == vx * vx + vy * vy)), ('beyond the end', Implies(pn > 1, r == (qx - bx) * (qx - bx) + (qy - by) * (qy - by))),
                ('beside the segment', Implies(And(pn >= 0, pn <= 1), r == cr * cr * (1 / l2)))]
    S.fn(SG + 'PointToSegmentDistanceSqr', E=E3, requires=lambda A: [Or(pts(A)[1][0] != pts(A)[2][0], pts(A)[1][1] != pts(A)[2][1])], ensures=pdist)
    vx, vy, dx, dy, m, r = z3.Reals('vx vy dx dy m r')
    l2, dt, cr, vv = dx * dx + dy * dy, vx * dx + vy * dy, vx * dy - vy * dx, vx * vx + vy * vy
    f = vv - 2 * m * dt + m * m * l2        # squared distance to start + m (end - start)
    D, L_, C, VV = z3.Reals('D L C VV')
    S.lemma('Lagrange: cross^2 + dot^2 = |v|^2 |d|^2', [], cr * cr + dt * dt == vv * l2)
    g_ = VV - 2 * m * D + m * m * L_
    hy = [L_ > 0, VV * L_ == C * C + D * D, m >= 0, m <= 1]
    S.lemma('the normalised projection is dot / length^2', [L_ > 0], And((D * (1 / L_) < 0) == (D < 0), (D * (1 / L_) > 1) == (D > L_), C * C * (1 / L_) * L_ == C * C))
    S.lemma('start is closest when the projection is before it', hy + [D < 0], VV <= g_)
    S.lemma('end is closest when the projection is behind it', hy + [D > L_], VV - 2 * D + L_ <= g_)
    S.lemma('nothing is closer than the perpendicular', hy + [D >= 0, D <= L_, r * L_ == C * C], r <= g_)
    S.lemma('the perpendicular foot is on the segment and at that distance', [L_ > 0, VV * L_ == C * C + D * D, D >= 0, D <= L_, r * L_ == C * C, m * L_ == D], And(m >= 0, m <= 1, r == g_))

    def dts(E, t):
        q = SG + 'PointToSegmentDistanceSqr'
        dd = E.func('spec_segment_distance2', *[z3.RealSort()] * 7)
        return {q: Contract(q, requires=lambda A: [('segment is not a point', Or(*[a != b for a, b in zip(t.xy(A[1]), t.xy(A[2]))]))], ensures=lambda A, r, p: [
            r == dd(*t.xy(A[0]), *t.xy(A[1]), *t.xy(A[2]))])}
    fn('DistanceSqrToPoint', lambda t, A, r, p: [('distance to the segment, to the point when it is one', r == If(
        And(t.d(A['this'])[0] == 0, t.d(A['this'])[1] == 0), sum((x - y) * (x - y) for x, y in zip(t.seg(A['this'])[:2], t.xy(A[0]))),
        t.E.func('spec_segment_distance2', *[z3.RealSort()] * 7)(*t.xy(A[0]), *t.seg(A['this']))))], 1, cal=dts)

    # side of the line, bounding-box pre-test, intersection
    def cross_at(t, A):
        dx, dy = t.d(A['this'])
        qx, qy = t.xy(A[0])
        x, y = t.seg(A['this'])[:2]
        return dx * (qy - y) - dy * (qx - x)
    fn('SideOfPoint', lambda t, A, r, p: [('left, right or on the line within 1e-10', r == If(cross_at(t, A) >= SEPS, z3.IntVal(0), If(cross_at(t, A) <= -SEPS, z3.IntVal(1), z3.IntVal(2))))], 2, req=nz)

    def might(t, A, r):
        a, b = t.seg(A['this']), t.seg(A[0])
        mx, mn = lambda x, y: If(x < y, y, x), lambda x, y: If(y < x, y, x)
        ok = And(*[And(mx(a[i], a[i + 2]) + SEPS >= mn(b[i], b[i + 2]), mn(a[i], a[i + 2]) - SEPS <= mx(b[i], b[i + 2])) for i in (0, 1)])
        return r == ok
    fn('MightIntersect', lambda t, A, r, p: [('the bounding boxes grown by 1e-10 overlap', might(t, A, r))], 1)

    def lines(t, A):
        a, b = t.seg(A['this']), t.seg(A[0])
        d, e = (a[2] - a[0], a[3] - a[1]), (b[2] - b[0], b[3] - b[1])
        den = d[0] * e[1] - d[1] * e[0]
        w = (a[0] - b[0], a[1] - b[1])
        n1 = e[0] * w[1] - e[1] * w[0]
        n2 = d[0] * w[1] - d[1] * w[0]
        return a, b, d, e, den, n1, n2

    def inter(t, A, r, p):
        a, b, d, e, den, n1, n2 = lines(t, A)
        t1, t2 = n1 / den, n2 / den
        pt = (a[0] + d[0] * t1, a[1] + d[1] * t1)
        par = And(den < SEPS, den > -SEPS)
        dist = lambda x, y: (pt[0] - x) * (pt[0] - x) + (pt[1] - y) * (pt[1] - y)
        e2 = dbl(1e-10 * 1e-10)
        inside = And(Or(t1 >= 0, dist(a[0], a[1]) <= e2), Or(t1 <= 1, dist(a[2], a[3]) <= e2), Or(t2 >= 0, dist(b[0], b[1]) <= e2), Or(t2 <= 1, dist(b[2], b[3]) <= e2))
        return par, t1, t2, pt, inside

    def iens(t, A, r, p):
        par, t1, t2, pt, inside = inter(t, A, r, p)
        x, y = t.xy(p['point'])
        return [('never for parallel segments', Implies(par, Not(r))),
                ('exactly when the crossing point of the lines is within 1e-10 of both segments', Implies(Not(par), r == inside)),
                ('reports the crossing point', Implies(r, And(x == pt[0], y == pt[1])))]
    fn('Intersect', iens, 2, keep=False)
    # the point so computed lies on both lines
    a0, a1, d0, d1, b0, b1, e0, e1, t1, t2 = z3.Reals('a0 a1 d0 d1 b0 b1 e0 e1 t1 t2')
    w0, w1 = a0 - b0, a1 - b1
    den = d0 * e1 - d1 * e0
    S.lemma('the crossing point lies on both lines', [den != 0, t1 * den == e0 * w1 - e1 * w0, t2 * den == d0 * w1 - d1 * w0],
            And(a0 + d0 * t1 == b0 + e0 * t2, a1 + d1 * t1 == b1 + e1 * t2))

    def ioc(t, A, r, p):
        par, t1, t2, pt, inside = inter(t, A, r, p)
        f = dist(t)
        me, ot = t.seg(A['this']), t.seg(A[0])
        ends = Or(*[f(*sg, *pt) < e2 for sg, pt in ((me, ot[:2]), (me, ot[2:]), (ot, me[:2]), (ot, me[2:]))])
        return [('like Intersect when not parallel', Implies(Not(par), r == inside)),
                ('parallel segments: when an endpoint of one lies on the other', Implies(par, r == ends))]
    e2 = dbl(1e-10 * 1e-10)
    dist = lambda t: t.E.func('squared distance of segment to point', *[z3.RealSort()] * 7)
    fn('IntersectOrCoincide', ioc, 1, keep=False, cal=lambda E, t: {SG + 'DistanceSqrToPoint': Contract(SG + 'DistanceSqrToPoint', ensures=lambda A, r, p: [
        r >= 0, r == dist(t)(*t.seg(A['this']), *t.xy(A[0]))])})


def box(S):
    def fn(m, ens, n=None, sig=None, label=None, req=None, cal=None):
        E = S.engine()
        t = T(E)
        ax = lambda b: E.get(b, 'axis_')
        S.fn(BX + m, E=E, nparams=n, sig=sig, label=label or 'Box2d::' + m, requires=lambda A: [t.inv(ax(A['this']))] + (req(t, A) if req else []),
             ensures=lambda A, r, p: ens(t, A, r, p, ax), callees=cal(E, t) if cal else None)
    perp = SG + 'PerpUnit'
    L2 = lambda t, s: sum(x * x for x in t.d(s))

    def pu(E, t):
        return {perp: Contract(perp, requires=lambda A: [('cache is right', t.inv(A['this']))], modifies=('this',), ensures=lambda A, r, p: [
            t.is_(r, E.func('spec_nx', z3.RealSort(), z3.RealSort(), z3.RealSort())(*t.d(A['this'])), E.func('spec_ny', z3.RealSort(), z3.RealSort(), z3.RealSort())(*t.d(A['this']))),
            t.inv(p['this']), *[a == b for a, b in zip(t.seg(A['this']), t.seg(p['this']))]])}

    def corner(t, A, ax):
        s = ax(A['this'])
        E = t.E
        n = [E.func(k, z3.RealSort(), z3.RealSort(), z3.RealSort())(*t.d(s)) for k in ('spec_nx', 'spec_ny')]
        w = E.get(A['this'], 'width_') / 2
        x1, y1, x2, y2 = t.seg(s)
        return [(x1 + n[0] * w, y1 + n[1] * w), (x2 + n[0] * w, y2 + n[1] * w), (x2 - n[0] * w, y2 - n[1] * w), (x1 - n[0] * w, y1 - n[1] * w)]
    fn('GetCornersInVectorCounterClockwise', lambda t, A, r, p, ax: [('four corners', t.E.len(p['corners']) == 4)] + [
        ('corner %d: half the width beside the axis ends, counter-clockwise' % k, t.is_(t.E.at(p['corners'], k), *corner(t, A, ax)[j])) for k, j in enumerate((0, 3, 2, 1))], cal=pu)

    def len_(E, t):
        q = SG + 'length'
        return {q: Contract(q, requires=lambda A: [('cache is right', t.inv(A['this']))], modifies=('this',), ensures=lambda A, r, p: [
            r >= 0, r == E.func('spec_len', z3.RealSort(), z3.RealSort(), z3.RealSort())(*t.d(A['this'])), t.inv(p['this'])])}
    fn('GetArea', lambda t, A, r, p, ax: [('length times width', r == t.E.get(A['this'], 'width_') * t.E.func('spec_len', z3.RealSort(), z3.RealSort(), z3.RealSort())(*t.d(ax(A['this']))))], cal=len_)
    fn('center', lambda t, A, r, p, ax: [('midpoint of the axis', t.is_(r, *[(t.seg(ax(A['this']))[i] + t.seg(ax(A['this']))[i + 2]) / 2 for i in (0, 1)]))])

    # changing the box
    fn('ShiftCenter', lambda t, A, r, p, ax: [('axis shifted, width kept', And(*[a + t.xy(A[0])[i % 2] == b for i, (a, b) in enumerate(zip(t.seg(ax(A['this'])), t.seg(ax(p['this']))))],
       t.E.get(p['this'], 'width_') == t.E.get(A['this'], 'width_'))), ('cached values are right', t.inv(ax(p['this'])))], 1)

    def bytwo(t, A, r, p, ax):
        (x1, y1), (x2, y2) = t.xy(A[0]), t.xy(A[1])
        s = t.seg(ax(p['this']))
        lx, ly = x2 - x1, y2 - y1
        wide = lx >= ly
        return [('axis through the middle along the longer side', And(*[a == If(wide, b, c) for a, b, c in zip(s, (x1, (y1 + y2) / 2, x2, (y1 + y2) / 2), ((x1 + x2) / 2, y1, (x1 + x2) / 2, y2))])),
                ('width is the shorter side', t.E.get(p['this'], 'width_') == If(wide, ly, lx)), ('cached values are right', t.inv(ax(p['this'])))]
    H = dbl(math.pi / 2)
    fn('Set', bytwo, 2, label='Box2d::Set(bottom_left, top_right)', req=lambda t, A: [t.xy(A[0])[0] <= t.xy(A[1])[0], t.xy(A[0])[1] <= t.xy(A[1])[1],
       t.cos(H) == 0, t.sin(H) == 1, t.cos(z3.RealVal(0)) == 1, t.sin(z3.RealVal(0)) == 0])

    def bycorner(t, A, r, p, ax):
        k, (cx, cy), (dx, dy), l, w = A[0], t.xy(A[1]), t.xy(A[2]), A[3], A[4]
        s = t.seg(ax(p['this']))
        nx, ny = -dy * w / 2, dx * w / 2
        # GetCorners order: rear left, front left, front right, rear right
        cor = [(s[0] + nx, s[1] + ny), (s[2] + nx, s[3] + ny), (s[2] - nx, s[3] - ny), (s[0] - nx, s[1] - ny)]
        return [('corner %d is where it was put' % i, Implies(k == i, And(cor[i][0] == cx, cor[i][1] == cy))) for i in range(4)] + [
            ('axis has the length and direction', And(s[2] - s[0] == dx * l, s[3] - s[1] == dy * l)), ('width', t.E.get(p['this'], 'width_') == w), ('cached values are right', t.inv(ax(p['this'])))]
    fn('Set', bycorner, 5, sig='(int, waymo', label='Box2d::Set(corner)', req=lambda t, A: [A[0] >= 0, A[0] <= 3, A[3] >= 0, A[4] >= 0,
       t.xy(A[2])[0] * t.xy(A[2])[0] + t.xy(A[2])[1] * t.xy(A[2])[1] == 1])

    # the rectangle spanned by the corners has the stated centre and area
    x1, y1, x2, y2, nx, ny, w, l = z3.Reals('x1 y1 x2 y2 nx ny w l')
    c = [(x1 + nx * w / 2, y1 + ny * w / 2), (x1 - nx * w / 2, y1 - ny * w / 2), (x2 - nx * w / 2, y2 - ny * w / 2), (x2 + nx * w / 2, y2 + ny * w / 2)]
    hyp = [l > 0, w >= 0, nx * l == -(y2 - y1), ny * l == x2 - x1, nx * nx + ny * ny == 1, l * l == (x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1)]
    S.lemma('corners are centred on the box centre', [], And(sum(p[0] for p in c) == 2 * (x1 + x2), sum(p[1] for p in c) == 2 * (y1 + y2)))
    sh = sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(c, c[1:] + c[:1])) / 2
    kx, ky, dx, dy = z3.Reals('kx ky dx dy')
    S.lemma('the shoelace area of the corners is |d x n| w', [], sh == w * (ny * (x2 - x1) - nx * (y2 - y1)))
    S.lemma('|d x n| is the length', [l > 0, nx * l == -dy, ny * l == dx, l * l == dx * dx + dy * dy], ny * dx - nx * dy == l)


def aabox(S):
    Bq = NS + 'AABox2d<double>::'
    E = S.engine()
    f = lambda b: [E.get(b, n) for n in ('cx_', 'cy_', 'hx_', 'hy_')]

    def overlap(A, r, p):
        a, b = f(A['this']), f(A[0])
        one = lambda i: And(a[i] - a[i + 2] <= b[i] + b[i + 2], b[i] - b[i + 2] <= a[i] + a[i + 2])
        return [('the closed intervals overlap along both axes', r == And(one(0), one(1)))]
    S.fn(Bq + 'Overlap', E=E, label='AABox2d::Overlap', ensures=overlap)

"""C03: contracts on the IoU functions; the polygon intersection area comes in through its contract (C06)."""
from spec import *

MIN, MAX, EPS = dbl(1e-2), dbl(1e6), dbl(1e-6)


class Spec:
    def __init__(self, E):
        self.E = E
        self.PS = E.sort(NS + 'Polygon2d')
        R_ = z3.RealSort()
        self.poly = z3.Function('spec_poly', R_, R_, R_, R_, R_, self.PS)
        self.area = z3.Function('spec_poly_area', self.PS, R_)
        self.inter = z3.Function('spec_intersection', self.PS, self.PS, R_)

    def f(self, b, n):
        return self.E.get(b, n)

    def of(self, b):
        return self.poly(*[self.f(b, n) for n in ('center_x', 'center_y', 'heading', 'length', 'width')])

    def clamp(self, x):
        return If(x < 0, z3.RealVal(0), If(x > 1, z3.RealVal(1), x))

    def small(self, b, dims):
        return Or(*[self.f(b, d) <= MIN for d in dims])

    def ratio(self, i, a, b):
        u = a + b - i
        return If(u <= EPS, z3.RealVal(0), self.clamp(i / u))

    def zoverlap(self, b1, b2):
        lo = lambda b: self.f(b, 'center_z') - self.f(b, 'height') / 2
        hi = lambda b: self.f(b, 'center_z') + self.f(b, 'height') / 2
        mx = If(lo(b1) > lo(b2), lo(b1), lo(b2))
        mn = If(hi(b1) < hi(b2), hi(b1), hi(b2))
        return mn - mx

    def iou2(self, b1, b2):
        d = ('length', 'width')
        A = lambda b: self.f(b, 'length') * self.f(b, 'width')
        return If(Or(self.small(b1, d), self.small(b2, d)), z3.RealVal(0), self.ratio(self.inter(self.of(b1), self.of(b2)), A(b1), A(b2)))

    def iou3(self, b1, b2):
        d = ('length', 'width', 'height')
        V = lambda b: self.f(b, 'length') * self.f(b, 'width') * self.f(b, 'height')
        z = self.zoverlap(b1, b2)
        return If(Or(self.small(b1, d), self.small(b2, d), z < 0), z3.RealVal(0), self.ratio(self.inter(self.of(b1), self.of(b2)) * z, V(b1), V(b2)))

    def aa_inter(self, b1, b2):
        def ov(c, d):
            lo = lambda b: self.f(b, c) - self.f(b, d) / 2
            hi = lambda b: self.f(b, c) + self.f(b, d) / 2
            mx = If(lo(b1) > lo(b2), lo(b1), lo(b2))
            mn = If(hi(b1) < hi(b2), hi(b1), hi(b2))
            return If(mn - mx < 0, z3.RealVal(0), mn - mx)
        return ov('center_x', 'length') * ov('center_y', 'width')

    def aa(self, b1, b2):
        """overlap area of the axis-aligned boxes, named so that callers need no products"""
        self.aa_fun()
        h = lambda b: [self.f(b, 'center_x'), self.f(b, 'center_y'), self.f(b, 'length') / 2, self.f(b, 'width') / 2]
        return self.aaf(*h(b1), *h(b2))

    def aa_fun(self):
        if not hasattr(self, 'aaf'):
            R_ = z3.RealSort()
            self.aaf = z3.Function('spec_aa_overlap', *[R_] * 9)

    def iouaa(self, b1, b2):
        d = ('length', 'width')
        A = lambda b: self.f(b, 'length') * self.f(b, 'width')
        return If(Or(self.small(b1, d), self.small(b2, d)), z3.RealVal(0), self.ratio(self.aa(b1, b2), A(b1), A(b2)))

    def iou(self, b1, b2, t):
        big = Or(*[self.f(b, d) >= MAX for b in (b1, b2) for d in ('length', 'width', 'height')])
        return If(big, z3.RealVal(0), If(t == 1, self.iou3(b1, b2), If(t == 2, self.iou2(b1, b2), self.iouaa(b1, b2))))


def aafacts(E, T, a, b, r):
    """what the contract of AABox2d::ComputeIntersectionArea and the lemmas on it give"""
    h = lambda x: [E.get(x, n) for n in ('cx_', 'cy_', 'hx_', 'hy_')]
    T.aa_fun()
    x, y = h(a), h(b)
    return [r == T.aaf(*x, *y), T.aaf(*x, *y) == T.aaf(*y, *x), r >= 0, r <= 2 * x[2] * (2 * x[3]), r <= 2 * y[2] * (2 * y[3]),
            Implies(And(*[p == q for p, q in zip(x, y)]), r == 2 * x[2] * (2 * x[3]))]


def polys(E, T):
    tp, ia, aa = NS + 'ToPolygon2d', NS + 'Polygon2d::ComputeIntersectionArea', NS + 'AABox2d<double>::ComputeIntersectionArea'
    return {tp: Contract(tp, ensures=lambda A, r, p: [r == T.of(A[0]), T.area(r) == E.get(A[0], 'length') * E.get(A[0], 'width')]),
            # C06: the intersection area is between 0 and either area, symmetric, and the area itself for equal polygons
            aa: Contract(aa, requires=lambda A: [('half sizes are not negative', And(*[E.get(A[k], n) >= 0 for k in ('this', 0) for n in ('hx_', 'hy_')]))], ensures=lambda A, r, p: aafacts(E, T, A['this'], A[0], r)),
            ia: Contract(ia, ensures=lambda A, r, p: [
                r == T.inter(A['this'], A[0]), r >= 0, r <= T.area(A['this']), r <= T.area(A[0]),
                T.inter(A['this'], A[0]) == T.inter(A[0], A['this']), Implies(A['this'] == A[0], r == T.area(A[0]))])}


def build(S):
    # overlap area of two axis-aligned boxes
    E0 = S.engine()
    q = NS + 'AABox2d<double>::ComputeIntersectionArea'

    def box(A, k):
        return [E0.get(A[k], n) for n in ('cx_', 'cy_', 'hx_', 'hy_')]

    def ov(c1, h1, c2, h2):
        lo, hi = lambda c, h: c - h, lambda c, h: c + h
        mx = If(lo(c1, h1) > lo(c2, h2), lo(c1, h1), lo(c2, h2))
        mn = If(hi(c1, h1) < hi(c2, h2), hi(c1, h1), hi(c2, h2))
        return If(mn - mx < 0, z3.RealVal(0), mn - mx)

    def aadef(a, b):
        return ov(a[0], a[2], b[0], b[2]) * ov(a[1], a[3], b[1], b[3])
    S.fn(q, E=E0, label='AABox2d::ComputeIntersectionArea', requires=lambda A: [box(A, k)[i] >= 0 for k in ('this', 0) for i in (2, 3)],
         ensures=lambda A, r, p: [('product of the overlaps along the axes, 0 when apart', r == aadef(box(A, 'this'), box(A, 0)))])
    av, bv = z3.Reals('ax ay ahx ahy'), z3.Reals('bx by bhx bhy')
    pos = [x >= 0 for x in av[2:] + bv[2:]]
    ox, oy = z3.Reals('ox oy')
    S.lemma('the overlap along an axis is symmetric', [], ov(av[0], av[2], bv[0], bv[2]) == ov(bv[0], bv[2], av[0], av[2]))
    S.lemma('the overlap along an axis is between 0 and either width', pos, And(ov(av[0], av[2], bv[0], bv[2]) >= 0, ov(av[0], av[2], bv[0], bv[2]) <= 2 * av[2], ov(av[0], av[2], bv[0], bv[2]) <= 2 * bv[2]))
    S.lemma('the overlap of an interval with itself is its width', pos, ov(av[0], av[2], av[0], av[2]) == 2 * av[2])
    S.lemma('a product of bounded overlaps is at most the area', [ox >= 0, oy >= 0, ox <= 2 * av[2], oy <= 2 * av[3]], And(ox * oy >= 0, ox * oy <= 2 * av[2] * (2 * av[3])))

    def fn(q, want, types=None, extra=None):
        E = S.engine()
        T = Spec(E)

        def ens(A, r, p):
            w = want(T, A)
            o = [('value', r == w), ('in [0, 1]', And(r >= 0, r <= 1))]
            return o + (extra(T, A, r) if extra else [])
        S.fn(q, E=E, requires=(lambda A: [A[2] >= 1, A[2] <= 3]) if types else None, ensures=ens, callees=polys(E, T))
        return E, T
    self1 = lambda dims: (lambda T, A, r: [
        ('1 for a box against itself', Implies(And(A[0] == A[1], *[T.f(A[0], d) > MIN for d in dims]), r == 1))])
    fn(ANON + 'ComputeIoU2d', lambda T, A: T.iou2(A[0], A[1]))
    fn(ANON + 'ComputeIoUAA2d', lambda T, A: T.iouaa(A[0], A[1]))
    fn(ANON + 'ComputeIoU3d', lambda T, A: T.iou3(A[0], A[1]))

    # ComputeIoU against the contracts of the three
    E = S.engine()
    T = Spec(E)

    def part(n, f):
        return {ANON + n: Contract(ANON + n, ensures=lambda A, r, p: [r == f(A[0], A[1]), r >= 0, r <= 1])}
    cal = {}
    cal.update(part('ComputeIoU2d', T.iou2))
    cal.update(part('ComputeIoUAA2d', T.iouaa))
    cal.update(part('ComputeIoU3d', T.iou3))
    S.fn(NS + 'ComputeIoU', E=E, requires=lambda A: [A[2] >= 1, A[2] <= 3], callees=cal, ensures=lambda A, r, p: [
        ('the IoU of the box type, 0 for boxes a million metres large', r == T.iou(A[0], A[1], A[2])), ('in [0, 1]', And(r >= 0, r <= 1))])
    q = NS + 'ComputeIoU'
    E2 = S.engine()
    B2 = E2.sort(NS + 'Label_Box')
    iou = z3.Function('spec_iou', B2, B2, z3.IntSort(), z3.RealSort())
    k = z3.Int('spec!k')
    S.fn(NS + 'BatchComputeIoU', E=E2, requires=lambda A: [A[2] >= 1, A[2] <= 3], callees={q: Contract(q, ensures=lambda A, r, p: [r == iou(A[0], A[1], A[2])])},
         ensures=lambda A, r, p: [('one IoU per box, in order', And(E2.len(r) == E2.len(A[1]), forall([k], Implies(inr(k, E2.len(r)), E2.at(r, k) == iou(A[0], E2.at(A[1], k), A[2])))))],
         loops={0: lambda L: [('filled', And(E2.len(L.v('ious')) == E2.len(L.pre('b2s')),
                                             forall([k], Implies(inr(k, L.v('i')), E2.at(L.v('ious'), k) == iou(L.pre('b1'), E2.at(L.pre('b2s'), k), L.pre('box_type'))))))]})
    # --- the property itself, as lemmas over the values
    E = S.engine()
    T = Spec(E)
    B = E.sort(NS + 'Label_Box')
    a, b = z3.Const('box_a', B), z3.Const('box_b', B)
    t = z3.Int('box_type')
    P = lambda x: T.of(x)
    hy = [t >= 1, t <= 3, T.inter(P(a), P(b)) == T.inter(P(b), P(a)), T.inter(P(a), P(b)) >= 0, T.aa(a, b) == T.aa(b, a)]
    for v, n in ((1, '3D'), (2, '2D'), (3, 'axis-aligned')):
        S.lemma('IoU is symmetric (%s)' % n, hy, z3.substitute(T.iou(a, b, t) == T.iou(b, a, t), (t, z3.IntVal(v))))
        S.lemma('IoU of a box of positive size with itself is 1 (%s)' % n,
                [a == b, *[And(T.f(a, d) > MIN, T.f(a, d) < MAX) for d in ('length', 'width', 'height')], T.inter(P(a), P(a)) == T.f(a, 'length') * T.f(a, 'width'), T.aa(a, a) == T.f(a, 'length') * T.f(a, 'width'), *selfhyp(T, a)],
                T.iou(a, a, z3.IntVal(v)) == 1)
        S.lemma('IoU of boxes apart in plan is 0 (%s)' % n, [T.inter(P(a), P(b)) == 0, T.aa(a, b) == 0, T.f(a, 'height') >= 0, T.f(b, 'height') >= 0],
                T.iou(a, b, z3.IntVal(v)) == 0)
    S.lemma('3D IoU of boxes apart in height is 0', [T.zoverlap(a, b) <= 0], T.iou(a, b, z3.IntVal(1)) == 0)


def selfhyp(T, a):
    """products of the side lengths, spelled out for the solver"""
    l, w, h = [T.f(a, d) for d in ('length', 'width', 'height')]
    return [l * w > EPS, l * w * h > EPS]

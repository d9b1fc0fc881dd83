"""C13: contracts on the segmentation IoU evaluator (segmentation_metrics.cc)."""
from spec import *

SM = NS + 'SegmentationMetricsIOU::'
i, j, k, a, b = z3.Ints('spec!i spec!j spec!k spec!a spec!b')
one = lambda c: If(c, z3.IntVal(1), I0)


def dom(E, m, x):
    return z3.Select(E.get(m, 'dom'), x)


def val(E, m, x):
    return z3.Select(E.get(m, 'val'), x)


def T(E, t):
    """the evaluated classes"""
    return g(E, t, 'segmentation_metrics_config_.segmentation_types')


def N(E, t):
    return E.get(t, 'num_classes_')


def cell(E, t, x, y):
    return E.at(E.at(E.get(t, 'confusion_matrix_'), x), y)


def square(E, t, C=None):
    C = E.get(t, 'confusion_matrix_') if C is None else C
    n = N(E, t) + 1
    return And(E.len(C) == n, forall([i], Implies(inr(i, n), E.len(E.at(C, i)) == n), [E.at(C, i)]))


def mapper(E, t, upto=None):
    n = N(E, t) if upto is None else upto
    m = E.get(t, 'segmentation_type_mapper_')
    return [('every class has its index', forall([i], Implies(inr(i, n), And(dom(E, m, E.at(T(E, t), i)), val(E, m, E.at(T(E, t), i)) == i)), [E.at(T(E, t), i)])),
            ('only classes have an index', forall([k], Implies(dom(E, m, k), And(inr(val(E, m, k), n), E.at(T(E, t), val(E, m, k)) == k)), [dom(E, m, k)]))]


def valid(E, t):
    """the class invariant"""
    return [('classes', And(N(E, t) == E.len(T(E, t)), N(E, t) >= 0))] + mapper(E, t) + [
        ('square matrix', square(E, t)),
        ('counts are not negative', forall([i, j], Implies(And(inr(i, N(E, t) + 1), inr(j, N(E, t) + 1)), cell(E, t, i, j) >= 0), [cell(E, t, i, j)]))]


def cls(E, t, x):
    """index of class x; the number of classes when x is not evaluated"""
    m = E.get(t, 'segmentation_type_mapper_')
    return If(dom(E, m, x), val(E, m, x), N(E, t))


def same(E, p, q, but=()):
    return And(*[E.get(p, n) == E.get(q, n) for n, _, _ in E.info(p).fields if n not in but])


class Sums:
    """sums over the first n classes of a row (points labelled x) and of a column (points predicted x)"""
    def __init__(self, E, t):
        I = z3.IntSort()
        self.row, self.col = E.func('spec_labelled', I, I, I), E.func('spec_predicted', I, I, I)
        c = lambda x, y: cell(E, t, x, y)
        self.ax = [forall([i], And(self.row(i, I0) == 0, self.col(i, I0) == 0), [self.row(i, I0)]), forall([i], self.col(i, I0) == 0, [self.col(i, I0)]),
                   forall([i, k], Implies(k >= 0, self.row(i, k + 1) == self.row(i, k) + c(i, k)), [z3.MultiPattern(self.row(i, k), c(i, k))]),
                   forall([i, k], Implies(k >= 0, self.col(i, k + 1) == self.col(i, k) + c(k, i)), [z3.MultiPattern(self.col(i, k), c(k, i))])]


def build(S):
    ctor(S)
    update(S)
    reset(S)
    iou(S)
    merge(S)
    lemmas(S)


def ctor(S):
    def req(E, A):
        c = A['segmentation_metrics_config']
        t = E.get(c, 'segmentation_types')
        x, y = E.at(t, i), E.at(t, j)
        return [forall([i, j], Implies(And(inr(i, E.len(t)), inr(j, E.len(t)), x == y), i == j), [z3.MultiPattern(x, y)])]

    def inv(E, L):
        t = L.v('this')
        return [('classes', And(N(E, t) == E.len(T(E, t)), E.get(t, 'segmentation_metrics_config_') == E.A['segmentation_metrics_config'])), ('square', square(E, t)), ('zero', forall([i, j], Implies(And(inr(i, N(E, t) + 1), inr(j, N(E, t) + 1)), cell(E, t, i, j) == 0), [cell(E, t, i, j)]))] + mapper(E, t, L.v('i'))

    def ens(E, A, r, p):
        t = p['this']
        return valid(E, t) + [('no point counted yet', forall([i, j], Implies(And(inr(i, N(E, t) + 1), inr(j, N(E, t) + 1)), cell(E, t, i, j) == 0), [cell(E, t, i, j)])), ('the given classes', T(E, t) == E.get(A['segmentation_metrics_config'], 'segmentation_types'))]
    S.fn(SM + 'SegmentationMetricsIOU', requires=req, loops={0: inv}, ensures=ens, nparams=1)


def count(E):
    return E.func('spec_points of the pair of classes', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def update(S):
    def axioms(E, A):
        t, P, G = A['this'], A['prediction'], A['ground_truth']
        c = count(E)
        return [forall([i, j], c(i, j, I0) == 0, [c(i, j, I0)]),
                forall([i, j, k], Implies(k >= 0, c(i, j, k + 1) == c(i, j, k) + one(And(cls(E, t, E.at(G, k)) == i, cls(E, t, E.at(P, k)) == j))), [z3.MultiPattern(c(i, j, k), E.at(G, k)), c(i, j, k + 1)])]

    def counted(E, t, t0, n):
        return [('frame', same(E, t, t0, ('confusion_matrix_',))), ('square', square(E, t)),
                ('each point is counted in the cell of its label and prediction', forall([i, j], Implies(And(inr(i, N(E, t0) + 1), inr(j, N(E, t0) + 1)), And(cell(E, t, i, j) == cell(E, t0, i, j) + count(E)(i, j, n), count(E)(i, j, n) >= 0)), [cell(E, t, i, j)]))]

    def ens(E, A, r, p):
        ok = E.len(A['prediction']) == E.len(A['ground_truth'])
        return [('accepted exactly when the lengths agree', (E.get(r, '_code') == 0) == ok), ('a rejected frame changes nothing', Implies(Not(ok), same(E, p['this'], A['this'])))] + [
            (n, Implies(ok, f)) for n, f in counted(E, p['this'], A['this'], E.len(A['prediction'])) + valid(E, p['this'])]
    S.fn(SM + 'Update', requires=lambda E, A: [f for _, f in valid(E, A['this'])] + axioms(E, A),
         loops={0: lambda E, L: counted(E, L.v('this'), E.A['this'], L.v('i'))}, ensures=ens)


def reset(S):
    def zero(E, t, t0, up):
        n = N(E, t0) + 1
        return [('frame', same(E, t, t0, ('confusion_matrix_',))), ('square', square(E, t)), ('cleared', forall([i, j], Implies(And(inr(i, n), inr(j, n), up(i, j)), cell(E, t, i, j) == 0), [cell(E, t, i, j)]))]
    S.fn(SM + 'Reset', requires=lambda E, A: [f for _, f in valid(E, A['this'])],
         loops={0: lambda E, L: zero(E, L.v('this'), E.A['this'], lambda x, y: x < L.v('i')), 1: lambda E, L: zero(E, L.v('this'), E.A['this'], lambda x, y: Or(x < L.v('i'), And(x == L.v('i'), y < L.v('j'))))},
         ensures=lambda E, A, r, p: zero(E, p['this'], A['this'], lambda x, y: True) + valid(E, p['this']))


def ratio(I_, U):
    return If(U > 0, z3.ToReal(I_) / z3.ToReal(U), R(1))


def avg(E):
    return E.func('spec_sum of the IoUs', z3.IntSort(), z3.RealSort())


def reported(E, t, r, inter, union, n):
    """the first n classes are reported with these intersections and unions"""
    m, M = E.get(r, 'per_class_iou'), E.get(r, 'segmentation_measurements')
    U, I_ = E.get(M, 'unions'), E.get(M, 'intersections')
    x = E.at(T(E, t), i)
    return [('as many intersections and unions as classes', And(E.len(U) == n, E.len(I_) == n, Implies(n > 0, E.get(r, 'has_segmentation_measurements')))),
            ('intersection: labelled and predicted as the class', forall([i], Implies(inr(i, n), E.at(I_, i) == inter(i)), [E.at(I_, i)])),
            ('union: labelled or predicted as the class', forall([i], Implies(inr(i, n), E.at(U, i) == union(i)), [E.at(U, i)])),
            ('IoU of each class', forall([i], Implies(inr(i, n), And(dom(E, m, x), val(E, m, x) == ratio(inter(i), union(i)))), [x])),
            ('nothing else is reported', forall([k], Implies(dom(E, m, k), And(dom(E, E.get(t, 'segmentation_type_mapper_'), k), val(E, E.get(t, 'segmentation_type_mapper_'), k) < n)), [dom(E, m, k)]))]


def ious(E, v, inter, union, n, N_):
    return [('ious', And(E.len(v) == N_, forall([i], Implies(inr(i, N_), E.at(v, i) == If(i < n, ratio(inter(i), union(i)), R(1))), [E.at(v, i)])))]


def mean(E, v, L, N_, inter, union):
    s = avg(E)
    return [('sum', L.v('mean_iou') == s(L.k))] 


def avg_ax(E, inter, union):
    s = avg(E)
    return [s(I0) == 0, forall([k], Implies(k >= 0, s(k + 1) == s(k) + ratio(inter(k), union(k))), [s(k + 1), s(k)])]


def iou(S):
    def parts(E, t):
        s = Sums(E, t)
        n = N(E, t)
        inter = lambda x: cell(E, t, x, x)
        union = lambda x: s.row(x, n) + s.col(x, n) - inter(x) + cell(E, t, x, n)
        return s, inter, union

    def l0(E, L):
        t = E.A['this']
        s, inter, union = parts(E, t)
        return reported(E, t, L.v('results'), inter, union, L.v('i')) + ious(E, L.v('ious'), inter, union, L.v('i'), N(E, t))

    def l1(E, L):
        t = E.A['this']
        s, inter, union = parts(E, t)
        x, n = L.v('i'), L.v('j')
        return [('partial union', L.v('num_union') == s.row(x, n) + s.col(x, n) - inter(x))]

    def l2(E, L):
        return mean(E, L.v('ious'), L, None, None, None)

    def req(E, A):
        t = A['this']
        s, inter, union = parts(E, t)
        return [f for _, f in valid(E, t)] + s.ax + [N(E, t) >= 1] + avg_ax(E, inter, union)

    def ens(E, A, r, p):
        t = A['this']
        s, inter, union = parts(E, t)
        n = N(E, t)
        return reported(E, t, r, inter, union, n) + [('mean over the evaluated classes', E.get(r, 'miou') * z3.ToReal(n) == avg(E)(n)), ('the counts stay', same(E, p['this'], t))]
    S.fn(SM + 'ComputeIOU', requires=req, loops={0: l0, 1: l1, 2: l2}, ensures=ens)


def merge(S):
    def parts(E, A):
        I = z3.IntSort()
        fi, fu = E.func('spec_intersections of the first', I, I, I), E.func('spec_unions of the first', I, I, I)
        V = A['results']
        ax = []
        for f, n in ((fi, 'intersections'), (fu, 'unions')):
            ax += [forall([i], f(i, I0) == 0, [f(i, I0)]), forall([i, k], Implies(k >= 0, f(i, k + 1) == f(i, k) + E.at(E.get(E.at(V, k), n), i)), [f(i, k + 1), z3.MultiPattern(f(i, k), E.at(V, k))])]
        return fi, fu, E.len(V), ax

    def shape(E, A):
        V, n = A['results'], N(E, A['this'])
        return [And(E.len(E.get(E.at(V, k), 'unions')) == n, E.len(E.get(E.at(V, k), 'intersections')) == n)]

    def l0(E, L):
        fi, fu, n, _ = parts(E, E.A)
        c = N(E, E.A['this'])
        return [('totals so far', And(E.len(L.v(v)) == c, forall([i], Implies(inr(i, c), E.at(L.v(v), i) == f(i, L.k)), [E.at(L.v(v), i)]))) for v, f in (('num_intersections', fi), ('num_unions', fu))]

    def l1(E, L):
        fi, fu, n, _ = parts(E, E.A)
        c = N(E, E.A['this'])
        kk = L.outer[-1]     # the results already added
        return [('totals so far', And(E.len(L.v(v)) == c, forall([i], Implies(inr(i, c), E.at(L.v(v), i) == If(i < L.v('i'), f(i, kk + 1), f(i, kk))), [E.at(L.v(v), i)]))) for v, f in (('num_intersections', fi), ('num_unions', fu))]

    def fin(E):
        fi, fu, n, _ = parts(E, E.A)
        return (lambda x: fi(x, n)), (lambda x: fu(x, n))

    def l2(E, L):
        inter, union = fin(E)
        t = E.A['this']
        return reported(E, t, L.v('merged'), inter, union, L.v('i')) + ious(E, L.v('ious'), inter, union, L.v('i'), N(E, t))

    def req(E, A):
        fi, fu, n, ax = parts(E, A)
        return [f for _, f in valid(E, A['this'])] + ax + [N(E, A['this']) >= 1, forall([k], Implies(inr(k, n), shape(E, A)[0]), [E.at(A['results'], k)])] + avg_ax(E, lambda x: fi(x, n), lambda x: fu(x, n))

    def ens(E, A, r, p):
        inter, union = fin(E)
        n = N(E, A['this'])
        return reported(E, A['this'], r, inter, union, n) + [('mean over the evaluated classes', E.get(r, 'miou') * z3.ToReal(n) == avg(E)(n))]
    S.fn(SM + 'MergeResults', requires=req, loops={0: l0, 1: l1, 2: l2, 3: lambda E, L: mean(E, None, L, None, None, None)}, ensures=ens)


def lemmas(S):
    """sums and counts are additive: accumulating frames in any order or merging partial results counts the same"""
    I = z3.IntSort()
    f = [z3.Function('f%d' % q, I, I) for q in range(3)]
    s = [z3.Function('s%d' % q, I, I) for q in range(3)]
    n, m, t, I1, U1, I2, U2 = z3.Ints('n m t I1 U1 I2 U2')
    S.lemma('the sum over classes of two added matrices is the sum of the sums (step)', [s[0](n) == s[1](n) + s[2](n), f[0](n) == f[1](n) + f[2](n)] + [s[q](n + 1) == s[q](n) + f[q](n) for q in range(3)], s[0](n + 1) == s[1](n + 1) + s[2](n + 1))
    c, d, e = z3.Function('count of both frames', I, I), z3.Function('count of the first', I, I), z3.Function('count of the second', I, I)
    h = z3.Function('point in the cell', I, z3.BoolSort())
    S.lemma('points of two frames in a row count as the first plus the second (step)', [c(n + m) == d(n) + e(m), c(n + m + 1) == c(n + m) + one(h(n + m)), e(m + 1) == e(m) + one(h(n + m))], c(n + m + 1) == d(n) + e(m + 1))
    S.lemma('an IoU lies in [0, 1]', [I1 >= 0, U1 >= I1], And(ratio(I1, U1) >= 0, ratio(I1, U1) <= 1))
    x, y, z = z3.Ints('x y z')
    S.lemma('a row and a column hold the diagonal', [x >= 0, y >= x, z >= x], y + z - x >= x)

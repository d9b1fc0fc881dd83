"""C09: contracts on merging of detection measurements, precision/recall and average precision."""
from spec import *

IN = NS + 'internal::'
D = ANON
i, j, k = z3.Ints('spec!i spec!j spec!k')
x, y = z3.Reals('spec!x spec!y')
CNT = ('num_tps', 'num_fps', 'num_fns', 'sum_ha', 'sum_longitudinal_affinity')
HEAD = ('generator_id', 'shard', 'difficulty_level')


def ms(E, t):
    return E.get(t, 'measurements')


def concat(E, r, a, b):
    n = E.len(a)
    return And(E.len(r) == n + E.len(b), forall([k], Implies(inr(k, E.len(r)), E.at(r, k) == If(k < n, E.at(a, k), E.at(b, k - n))), [E.at(r, k)]))


def merged(E, a, b, r):
    """r is the sum of measurements a and b"""
    has = lambda t: E.get(t, 'has_score_cutoff')
    both = And(has(a), has(b))
    return [('a measurement without cutoff adds nothing', And(Implies(Not(has(a)), r == b), Implies(And(has(a), Not(has(b))), r == a))),
            ('counts add', Implies(both, And(*[E.get(r, f) == E.get(a, f) + E.get(b, f) for f in CNT]))),
            ('same cutoff', Implies(both, And(E.get(r, 'score_cutoff') == E.get(a, 'score_cutoff'), has(r)))),
            ('details of single frames are appended in order', Implies(And(both, Or(E.len(E.get(a, 'details')) == 1, E.len(E.get(b, 'details')) == 1)), concat(E, E.get(r, 'details'), E.get(a, 'details'), E.get(b, 'details'))))]


def compatible(E, a, b):
    """two measurement lists of the same breakdown and cutoffs (an empty one goes with any)"""
    return Or(E.len(ms(E, a)) == 0, And(E.len(ms(E, a)) == E.len(ms(E, b)), *[g(E, a, 'breakdown.' + f) == g(E, b, 'breakdown.' + f) for f in HEAD] +
                                        [forall([i], Implies(inr(i, E.len(ms(E, a))), E.get(E.at(ms(E, a), i), 'score_cutoff') == E.get(E.at(ms(E, b), i), 'score_cutoff')), [E.at(ms(E, a), i)])]))


def vcompat(E, a, b):
    """two vectors of measurement lists that fit element by element"""
    ea, eb = E.at(a, i), E.at(b, i)
    n = E.len(a)
    return And(Implies(n > 0, E.len(a) == E.len(b)),
               forall([i], Implies(inr(i, n), Or(E.len(ms(E, ea)) == 0, And(E.len(ms(E, ea)) == E.len(ms(E, eb)), *[g(E, ea, 'breakdown.' + f) == g(E, eb, 'breakdown.' + f) for f in HEAD]))), [ea]),
               forall([i, j], Implies(And(inr(i, n), inr(j, E.len(ms(E, ea)))), E.get(E.at(ms(E, ea), j), 'score_cutoff') == E.get(E.at(ms(E, eb), j), 'score_cutoff')), [E.at(ms(E, ea), j)]))


def madd(E, r, a, b, upto=None):
    """measurement list r is a + b, element by element"""
    n = E.len(ms(E, a)) if upto is None else upto
    R_, A_, B_ = ms(E, r), ms(E, a), ms(E, b)
    return [(nm, forall([i], Implies(inr(i, n), f), [E.at(R_, i)])) for nm, f in merged(E, E.at(A_, i), E.at(B_, i), E.at(R_, i))]


def rest(E, r, a):
    return And(*[E.get(r, n) == E.get(a, n) for n, _, _ in E.info(r).fields if n != 'measurements'])


def listsum(E, A, p):
    old, new, m = A['m'], A['new_m'], p['m']
    e = E.len(ms(E, old)) == 0
    return [('an empty list takes the new one', Implies(e, m == new)),
            ('same breakdown and number of cutoffs', Implies(Not(e), And(rest(E, m, old), E.len(ms(E, m)) == E.len(ms(E, old)))))] + [
            (n, Implies(Not(e), f)) for n, f in madd(E, m, old, new)]


def build(S):
    q1 = D + 'MergeDetectionMeasurement'
    S.fn(q1, requires=lambda E, A: [Implies(And(E.get(A[0], 'has_score_cutoff'), E.get(A[1], 'has_score_cutoff')), E.get(A[0], 'score_cutoff') == E.get(A[1], 'score_cutoff'))],
         ensures=lambda E, A, r, p: merged(E, A[0], A[1], r))
    c1 = lambda E: {q1: Contract(q1, requires=lambda A: [('same cutoff', Implies(And(E.get(A[0], 'has_score_cutoff'), E.get(A[1], 'has_score_cutoff')), E.get(A[0], 'score_cutoff') == E.get(A[1], 'score_cutoff')))],
                                 ensures=lambda A, r, p: [f for _, f in merged(E, A[0], A[1], r)])}

    def l2(E, L):
        m, old = L.v('m'), E.A['m']
        n = L.v('i')
        return [('same breakdown and number of cutoffs', And(rest(E, m, old), E.len(ms(E, m)) == E.len(ms(E, old)))),
                ('not reached yet', forall([i], Implies(And(i >= n, i < E.len(ms(E, old))), E.at(ms(E, m), i) == E.at(ms(E, old), i)), [E.at(ms(E, m), i)]))] + madd(E, m, old, E.A['new_m'], n)
    q2 = D + 'MergeDetectionMeasurements'
    S.fn(q2, label='MergeDetectionMeasurements (two lists)', requires=lambda E, A: [compatible(E, A['m'], A['new_m'])], ensures=lambda E, A, r, p: listsum(E, A, p), callees=c1, loops={0: l2})

    add = lambda E: z3.Function('sum of measurement lists', *([E.S.sort(NS + 'DetectionMeasurements')] * 3))
    c2 = lambda E: {q2: Contract(q2, requires=lambda A: [('compatible', compatible(E, A[1], A[0]))], ensures=lambda A, r, p: [p['m'] == add(E)(A[1], A[0])], modifies=('m',), args=('new_m', 'm'))}

    def vsum(E, A, p):
        old, new, m = A['m'], A['new_m'], p['m']
        e = E.len(old) == 0
        return [('an empty vector takes the new one', Implies(e, m == new)), ('as many breakdowns', Implies(Not(e), E.len(m) == E.len(old))),
                ('element by element', Implies(Not(e), forall([i], Implies(inr(i, E.len(old)), E.at(m, i) == add(E)(E.at(old, i), E.at(new, i))), [E.at(m, i)])))]

    def l3(E, L):
        m, old, new, n = L.v('m'), E.A['m'], E.A['new_m'], L.v('i')
        return [('element by element', And(E.len(m) == E.len(old), forall([i], Implies(inr(i, E.len(old)), E.at(m, i) == If(i < n, add(E)(E.at(old, i), E.at(new, i)), E.at(old, i))), [E.at(m, i)])))]

    q3 = D + 'MergeDetectionMeasurementsVector'
    S.fn(q3, requires=lambda E, A: [vcompat(E, A['m'], A['new_m'])], ensures=lambda E, A, r, p: vsum(E, A, p), callees=c2, loops={0: l3})
    totals(S, q3)
    average(S)
    metrics(S)


def totals(S, q3):
    """merging any number of frames gives the totals over the frames"""
    tot = {f: z3.Function('total ' + f, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort() if f.startswith('sum') else z3.IntSort()) for f in CNT}

    def frames(E):
        return E.A['measurements']

    def shape(E, M):
        """every frame has the same breakdowns and cutoffs, each measurement carries its cutoff"""
        a, b = E.at(E.at(M, k), i), E.at(E.at(M, I0), i)
        ma, mb = E.at(ms(E, a), j), E.at(ms(E, b), j)
        return [forall([k], Implies(inr(k, E.len(M)), E.len(E.at(M, k)) == E.len(E.at(M, I0))), [E.at(M, k)]), E.len(E.at(M, I0)) > 0,
                forall([k, i], Implies(And(inr(k, E.len(M)), inr(i, E.len(E.at(M, I0)))), And(E.len(ms(E, a)) == E.len(ms(E, b)), E.len(ms(E, a)) > 0, *[g(E, a, 'breakdown.' + f) == g(E, b, 'breakdown.' + f) for f in HEAD])), [a]),
                forall([k, i, j], Implies(And(inr(k, E.len(M)), inr(i, E.len(E.at(M, I0))), inr(j, E.len(ms(E, b)))), And(E.get(ma, 'has_score_cutoff'), E.get(ma, 'score_cutoff') == E.get(mb, 'score_cutoff'))), [ma])]

    def tax(E, M):
        out = []
        for f in CNT:
            at = lambda n: E.get(E.at(ms(E, E.at(E.at(M, n), i)), j), f)
            z = R(0) if f.startswith('sum') else I0
            out += [forall([i, j], tot[f](i, j, I0) == z, [tot[f](i, j, I0)]), forall([i, j, k], Implies(k >= 0, tot[f](i, j, k + 1) == tot[f](i, j, k) + at(k)), [E.at(ms(E, E.at(E.at(M, k), i)), j)])]
        return out

    def upto(E, v, M, n):
        F = E.at(M, I0)
        e = E.at(v, i)
        m = E.at(ms(E, e), j)
        return [('as many breakdowns', E.len(v) == E.len(F)),
                ('same breakdowns and cutoffs', forall([i], Implies(inr(i, E.len(F)), And(E.len(ms(E, e)) == E.len(ms(E, E.at(F, i))), *[g(E, e, 'breakdown.' + f) == g(E, E.at(F, i), 'breakdown.' + f) for f in HEAD])), [e])),
                ('cutoffs', forall([i, j], Implies(And(inr(i, E.len(F)), inr(j, E.len(ms(E, E.at(F, i))))), And(E.get(m, 'has_score_cutoff'), E.get(m, 'score_cutoff') == E.get(E.at(ms(E, E.at(F, i)), j), 'score_cutoff'))), [m]))] + [
                ('total ' + f, forall([i, j], Implies(And(inr(i, E.len(F)), inr(j, E.len(ms(E, E.at(F, i))))), E.get(m, f) == tot[f](i, j, n)), [m])) for f in CNT]

    def cal(E):
        def req(A):
            a, b = A[1], A[0]
            return [('compatible', vcompat(E, a, b))]

        def ens(A, r, p):
            a, b, m = A[1], A[0], p['m']
            ea, eb, em = E.at(a, i), E.at(b, i), E.at(m, i)
            ne = E.len(a) > 0
            return [Implies(Not(ne), m == b), Implies(ne, E.len(m) == E.len(a)),
                    Implies(ne, forall([i], Implies(And(inr(i, E.len(a)), E.len(ms(E, ea)) > 0), And(E.len(ms(E, em)) == E.len(ms(E, ea)), rest(E, em, ea))), [em])),
                    Implies(ne, forall([i, j], Implies(And(inr(i, E.len(a)), inr(j, E.len(ms(E, ea)))), And(*[f for _, f in merged(E, E.at(ms(E, ea), j), E.at(ms(E, eb), j), E.at(ms(E, em), j))[1:3]])), [E.at(ms(E, em), j)]))]
        return {q3: Contract(q3, requires=req, ensures=ens, modifies=('m',), args=('new_m', 'm'))}
    S.fn(NS + 'MergeDetectionMeasurements', label='MergeDetectionMeasurements (frames)', requires=lambda E, A: [Implies(E.len(A['measurements']) > 0, f) for f in shape(E, A['measurements'])] + tax(E, A['measurements']),
         callees=cal, loops={0: lambda E, L: upto(E, L.v('measurements_merged'), frames(E), L.v('i'))},
         ensures=lambda E, A, r, p: [('nothing from no frames', Implies(E.len(A['measurements']) == 0, E.len(r) == 0))] + [(n, Implies(E.len(A['measurements']) > 0, f)) for n, f in upto(E, r, A['measurements'], E.len(A['measurements']))])


def average(S):
    """ComputeMeanAveragePrecision: the interpolated precision at recall r is the largest precision at any recall >= r"""
    def U(E):
        return E.func('upper bound of the precisions from a recall on', z3.RealSort(), z3.RealSort())

    def point(E):
        return next(n for n in E.P.records if n.split('::')[-1] == 'PR')

    def pre(E, A):
        P, Q, d = A['precisions'], A['recalls'], A['max_recall_delta']
        u = U(E)
        return [E.len(P) == E.len(Q), d > 0, d <= 1, forall([i], Implies(inr(i, E.len(P)), And(E.at(P, i) >= 0, E.at(P, i) <= 1)), [E.at(P, i)]),
                forall([i], Implies(inr(i, E.len(P)), And(E.at(Q, i) >= 0, E.at(Q, i) <= 1)), [E.at(Q, i)]),
                forall([i, x], Implies(And(inr(i, E.len(P)), E.at(Q, i) >= x), E.at(P, i) <= u(x)), [z3.MultiPattern(E.at(Q, i), u(x))]), forall([x], u(x) >= 0, [u(x)])]

    def perfect(E):
        P, Q = E.A['precisions'], E.A['recalls']
        return forall([i], Implies(inr(i, E.len(P)), E.at(P, i) == 1), [E.at(P, i)])

    def m0(E, L):
        m = L.v('recall_precision')
        P, Q, n = E.A['precisions'], E.A['recalls'], L.v('i')
        dom, val = (lambda x: z3.Select(E.get(m, 'dom'), x)), (lambda x: z3.Select(E.get(m, 'val'), x))
        isrec = E.func('is 0 or a recall', z3.RealSort(), z3.BoolSort())
        u = U(E)
        return [('keys', And(dom(R(0)), E.get(m, 'card') >= 1, forall([x], Implies(dom(x), And(x >= 0, x <= 1, val(x) >= 0, val(x) <= 1)), [dom(x)]))),
                ('every pair is covered', forall([i], Implies(inr(i, n), And(dom(E.at(Q, i)), val(E.at(Q, i)) >= E.at(P, i))), [E.at(Q, i)])),
                ('no precision from elsewhere', forall([x, y], Implies(And(dom(x), x > 0, y <= x), val(x) <= u(y)), [z3.MultiPattern(dom(x), u(y))])),
                ('perfect stays perfect', Implies(perfect(E), forall([x], Implies(dom(x), val(x) == 1), [dom(x)])))]

    def walk(E, L):
        it = L.E.st.cells[L._find('it')] if False else L.st.cells[L._find('it')]
        return it.idx, L.E.read(it.lv, L.st)

    def top(E, L, q, lr, mp, n, V, mid=False):
        """the points built from the n largest recalls; q: points, lr: last recall, mp: largest precision so far"""
        pt = lambda a: (E.get(E.at(q, a), 'r'), E.get(E.at(q, a), 'p'))
        u = U(E)
        ri, pi = pt(i)
        rj, pj = pt(j)
        vk = E.at(V, k)
        key, val = E.get(vk, 'first'), E.get(vk, 'second')
        Q, P = E.A['recalls'], E.A['precisions']
        return [('one point per recall at least', And(E.len(q) >= n, n >= 0, n <= E.len(V), Implies(n == 0, And(E.len(q) == 0, lr == 0, mp == 0)), Implies(n > 0, E.len(q) > 0))),
                ('recalls fall', forall([i, j], Implies(And(i >= 0, i < j, j < E.len(q)), ri > rj), [z3.MultiPattern(E.at(q, i), E.at(q, j))])),
                ('precisions rise', forall([i, j], Implies(And(i >= 0, i < j, j < E.len(q)), pi <= pj), [z3.MultiPattern(E.at(q, i), E.at(q, j))])),
                ('ranges', forall([i], Implies(inr(i, E.len(q)), And(pi >= 0, pi <= 1, ri >= 0, ri <= 1, ri >= lr, pi <= mp)), [E.at(q, i)])),
                ('last point', And(mp >= 0, mp <= 1, Implies(E.len(q) > 0, E.get(E.at(q, E.len(q) - 1), 'r') == lr), lr >= 0, lr <= 1)),
                ('largest precision of the recalls passed', forall([k], Implies(inr(k, n), val <= mp), [vk])),
                ('interpolated precision covers every recall not below', forall([i, k], Implies(And(inr(i, E.len(q)), inr(k, n), key >= ri), val <= pi), [z3.MultiPattern(E.at(q, i), vk)])),
                ('interpolated precision is attained', forall([i, x], Implies(And(inr(i, E.len(q)), x <= ri, ri > 0), pi <= u(x)), [z3.MultiPattern(E.at(q, i), u(x))])),
                ('largest precision is attained', forall([x], Implies(And(n > 0, x <= E.get(E.at(V, n - 1), 'first'), E.get(E.at(V, n - 1), 'first') > 0), mp <= u(x)), [u(x)])),
                ('starts at the largest recall', Implies(n > 0, And(E.get(E.at(q, I0), 'r') == E.get(E.at(V, I0), 'first')))),
                ('perfect', Implies(perfect(E), And(Implies(n > 0, mp == 1), forall([i], Implies(inr(i, E.len(q)), pi == 1), [E.at(q, i)]))))]

    def m1(E, L):
        n, V = walk(E, L)
        q, lr, mp = L.v('precision_recall'), L.v('last_recall'), L.v('max_precision')
        return top(E, L, q, lr, mp, n, V) + [('the last recall is the one reached', Implies(n > 0, lr == E.get(E.at(V, n - 1), 'first')))]

    def m2(E, L):
        n, V = walk(E, L)
        q, lr, mp = L.v('precision_recall'), L.v('last_recall'), L.v('max_precision')
        return top(E, L, q, lr, mp, n, V) + [('between two recalls', Implies(n > 0, And(lr <= E.get(E.at(V, n - 1), 'first'), lr > E.get(E.at(V, n), 'first')))), ('an entry is left', n < E.len(V))]

    def m3(E, L):
        q, n, a = L.v('precision_recall'), L.v('i'), L.v('mean_average_precision')
        pt = lambda c: (E.get(E.at(q, c), 'r'), E.get(E.at(q, c), 'p'))
        f = E.func('area', q.sort(), z3.IntSort(), z3.RealSort())
        return [('bounds', And(n >= 1, a >= 0, a <= pt(I0)[0] - pt(n - 1)[0])), ('perfect', Implies(perfect(E), a == pt(I0)[0] - pt(n - 1)[0])),
                ('trapezoids', a == f(q, n))]

    def areaax(E, A):
        so = E.S.vec(point(E))
        w = z3.Const('spec!w', so)
        f = E.func('area', so, z3.IntSort(), z3.RealSort())
        pt = lambda c: (E.get(E.at(w, c), 'r'), E.get(E.at(w, c), 'p'))
        (r0, p0), (r1, p1) = pt(k - 1), pt(k)
        return [forall([w], f(w, z3.IntVal(1)) == 0, [f(w, z3.IntVal(1))]), forall([w, k], Implies(k >= 1, f(w, k + 1) == f(w, k) + R('0.5') * (r0 - r1) * (p0 + p1)), [z3.MultiPattern(f(w, k), E.at(w, k))])]
    S.fn(IN + 'ComputeMeanAveragePrecision', requires=lambda E, A: pre(E, A) + areaax(E, A), loops={0: m0, 1: m1, 2: m2, 3: m3}, ensures=lambda E, A, r, p: [
        ('nothing without measurements', Implies(E.len(A['precisions']) == 0, r == 0)),
        ('between 0 and 1', And(r >= 0, r <= 1)),
        ('a perfect curve has area 1', Implies(And(perfect(E), E.len(A['recalls']) > 0, z3.Exists([i], And(inr(i, E.len(A['recalls'])), E.at(A['recalls'], i) == 1))), r == 1))])


VAR = (('', 'num_tps'), ('_ha_weighted', 'sum_ha'), ('_longitudinal_affinity_weighted', 'sum_longitudinal_affinity'))


def rates(E, cfg, m, r, n):
    """precisions and recalls of the first n cutoffs"""
    real = lambda v: z3.ToReal(v) if v.sort() == z3.IntSort() else v
    q = E.at(ms(E, m), i)
    tp, fp, fn = [E.get(q, f) for f in ('num_tps', 'num_fps', 'num_fns')]
    mn = E.get(cfg, 'min_precision')
    rec = If(tp + fn <= 0, R(0), real(tp) / real(tp + fn))
    out = [('cutoffs', And(E.len(E.get(r, 'score_cutoffs')) == n, forall([i], Implies(inr(i, n), E.at(E.get(r, 'score_cutoffs'), i) == E.get(q, 'score_cutoff')), [E.at(E.get(r, 'score_cutoffs'), i)])))]
    for v, num in VAR:
        P, Q = E.get(r, 'precisions' + v), E.get(r, 'recalls' + v)
        x = real(E.get(q, num)) / real(tp + fp)
        pr = If(rec == 0, R(1), If(tp + fp <= 0, R(0), If(x < mn, R(0), x)))
        out.append(('recall' + v + ' is TP/(TP+FN)', And(E.len(Q) == n, forall([i], Implies(inr(i, n), E.at(Q, i) == rec), [E.at(Q, i)]))))
        out.append(('precision' + v + ' is TP/(TP+FP), 1 at recall 0', And(E.len(P) == n, forall([i], Implies(inr(i, n), E.at(P, i) == pr), [E.at(P, i)]))))
    return out


def metrics(S):
    q = IN + 'ComputeMeanAveragePrecision'

    def cur(E):
        """the metrics being built, wherever the function keeps them"""
        for fr in reversed(E.frames):
            for n, k in fr.names.items():
                t = E.st.cells.get(k)
                if isinstance(t, z3.ExprRef) and t.sort() == E.S.sort(NS + 'DetectionMetrics'):
                    return t
        raise KeyError('metrics')

    def eq(E, a, b):
        return And(E.len(a) == E.len(b), forall([i], Implies(inr(i, E.len(a)), E.at(a, i) == E.at(b, i)), [E.at(a, i)]))

    def cal(E):
        def req(A):
            t = cur(E)
            return [('the precisions and recalls of one of the three metrics', Or(*[And(eq(E, A[0], E.get(t, 'precisions' + v)), eq(E, A[1], E.get(t, 'recalls' + v))) for v, _ in VAR])),
                    ('the configured recall step', A[2] == E.A['desired_recall_delta']),
                    ('precisions and recalls in [0, 1]', And(E.len(A[0]) == E.len(A[1]), *[forall([i], Implies(inr(i, E.len(a)), And(E.at(a, i) >= 0, E.at(a, i) <= 1)), [E.at(a, i)]) for a in (A[0], A[1])]))]

        def ens(A, r, p):
            return [r == mapv(E)(ident(E)(A[0]), ident(E)(A[1]))]
        return {q: Contract(q, requires=req, ensures=ens)}

    def ident(E):
        return z3.Function('sequence of', E.S.vec('float'), z3.IntSort())

    def mapv(E):
        return z3.Function('average precision of', z3.IntSort(), z3.IntSort(), z3.RealSort())

    def ext(E):
        """the average precision depends on the elements only"""
        so = E.S.vec('float')
        u, w = z3.Const('spec!u', so), z3.Const('spec!w', so)
        return [forall([u, w], Implies(eq(E, u, w), ident(E)(u) == ident(E)(w)), [z3.MultiPattern(ident(E)(u), ident(E)(w))])]

    def pre(E, A):
        m = A['measurements']
        x = E.at(ms(E, m), i)
        c = {f: E.get(x, f) for f in CNT}
        return ext(E) + [A['desired_recall_delta'] > 0, A['desired_recall_delta'] <= 1,
                         # sums of values in [0, 1] over the true positives
                         forall([i], Implies(inr(i, E.len(ms(E, m))), And(c['num_tps'] >= 0, c['num_fps'] >= 0, c['num_fns'] >= 0, c['sum_ha'] >= 0, c['sum_ha'] <= z3.ToReal(c['num_tps']),
                                                                  c['sum_longitudinal_affinity'] >= 0, c['sum_longitudinal_affinity'] <= z3.ToReal(c['num_tps']))), [x])]

    def inv(E, L):
        r = L.v('metrics')
        return rates(E, E.A['config'], E.A['measurements'], r, L.k) + keep(E, r, E.A)

    def keep(E, r, A):
        return [('the measurements are kept', And(E.get(r, 'measurements') == A['measurements'], E.get(r, 'breakdown') == E.get(A['measurements'], 'breakdown')))]
    S.fn(D + 'ToDetectionMetrics', requires=pre, callees=cal, loops={0: inv}, ensures=lambda E, A, r, p: rates(E, A['config'], A['measurements'], r, E.len(ms(E, A['measurements']))) + keep(E, r, A) + [
        ('mean average precision' + v, E.get(r, 'mean_average_precision' + v) == mapv(E)(ident(E)(E.get(r, 'precisions' + v)), ident(E)(E.get(r, 'recalls' + v)))) for v, _ in VAR])
    t, f = z3.Ints('spec!t spec!f')
    s = z3.Real('spec!s')
    S.lemma('a precision or recall is in [0, 1]', [t >= 0, f >= 0, t + f > 0, s >= 0, s <= z3.ToReal(t)], And(s / z3.ToReal(t + f) >= 0, s / z3.ToReal(t + f) <= 1))
    tops(S)


def tops(S):
    """ComputeDetectionMetrics: one metrics message per breakdown of the merged measurements, in order"""
    conv = lambda E: z3.Function('metrics of', E.S.sort(NS + 'Config'), E.S.sort(NS + 'DetectionMeasurements'), z3.RealSort(), E.S.sort(NS + 'DetectionMetrics'))
    V = lambda E: E.S.vec(NS + 'DetectionMeasurements')
    vadd = lambda E: z3.Function('sum of vectors', V(E), V(E), V(E))
    fold = lambda E: z3.Function('sum of the first frames', z3.IntSort(), V(E))
    of = lambda E: z3.Function('measurements of a frame', E.S.sort(NS + 'Config'), E.S.vec(NS + 'Object'), E.S.vec(NS + 'Object'), V(E))
    est = lambda E: z3.Const('configuration with estimated cutoffs', E.S.sort(NS + 'Config'))

    def cal(E):
        q3, q4 = D + 'MergeDetectionMeasurementsVector', D + 'ToDetectionMetrics'
        return {q3: Contract(q3, ensures=lambda A, r, p: [p['m'] == vadd(E)(A[1], A[0])], modifies=('m',), args=('new_m', 'm')),
                q4: Contract(q4, ensures=lambda A, r, p: [r == conv(E)(A[0], A[1], A[2])]),
                NS + 'EstimateScoreCutoffs': Contract(NS + 'EstimateScoreCutoffs', requires=lambda A: [('of the same evaluation', And(A[1] == E.A['pds'], A[2] == E.A['gts'], A[0] == E.A['config']))], ensures=lambda A, r, p: [r == est(E)]),
                NS + 'ComputeDetectionMeasurements': Contract(NS + 'ComputeDetectionMeasurements', ensures=lambda A, r, p: [r == of(E)(A[0], A[1], A[2])])}

    def done(E, A, r, n, N):
        F = fold(E)(N)
        return [('a metrics message per breakdown', And(E.len(r) == n, forall([i], Implies(inr(i, n), E.at(r, i) == conv(E)(A['config'], E.at(F, i), E.get(A['config'], 'desired_recall_delta'))), [E.at(r, i)])))]

    def folds(E, M):
        f = fold(E)
        return [forall([k], E.len(f(k)) >= 0, [f(k)]), Implies(E.len(M) > 0, f(z3.IntVal(1)) == E.at(M, I0)), forall([k], Implies(k >= 1, f(k + 1) == vadd(E)(f(k), E.at(M, k))), [f(k)])]

    def left(E, A, v, n, N):
        F = fold(E)(N)
        return [('not converted yet', And(E.len(v) == E.len(F), forall([i], Implies(And(i >= n, i < E.len(F)), E.at(v, i) == E.at(F, i)), [E.at(v, i)])))]
    N = lambda E: E.len(E.A['measurements'])
    S.fn(NS + 'ComputeDetectionMetrics', label='ComputeDetectionMetrics (measurements)', nparams=2, requires=lambda E, A: folds(E, A['measurements']), callees=cal,
         loops={0: lambda E, L: [('sum so far', And(L.v('i') >= 1, L.v('measurements_merged') == fold(E)(L.v('i'))))],
                1: lambda E, L: done(E, E.A, L.v('metrics'), L.k, N(E)) + left(E, E.A, L.v('measurements_merged'), L.k, N(E))},
         ensures=lambda E, A, r, p: [(n, Implies(E.len(A['measurements']) > 0, f)) for n, f in done(E, A, r, E.len(fold(E)(N(E))), N(E))] + [('nothing from no frames', Implies(E.len(A['measurements']) == 0, E.len(r) == 0))])

    def frames(E, A):
        f, P, G = fold(E), A['pds'], A['gts']
        c = If(E.len(E.get(A['config'], 'score_cutoffs')) > 0, A['config'], est(E))
        m = lambda k: of(E)(c, E.at(P, k), E.at(G, k))
        return [E.len(P) == E.len(G), E.len(P) > 0, forall([k], E.len(f(k)) >= 0, [f(k)]), f(z3.IntVal(1)) == m(I0), forall([k], Implies(k >= 1, f(k + 1) == vadd(E)(f(k), m(k))), [f(k)])]
    M = lambda E: E.len(E.A['pds'])
    S.fn(NS + 'ComputeDetectionMetrics', label='ComputeDetectionMetrics (frames)', nparams=4, requires=frames, callees=cal,
         loops={0: lambda E, L: [('sum so far', If(L.v('i') == 0, E.len(L.v('measurements')) == 0, L.v('measurements') == fold(E)(L.v('i'))))],
                1: lambda E, L: done(E, E.A, L.v('metrics'), L.k, M(E)) + left(E, E.A, L.v('measurements'), L.k, M(E))},
         ensures=lambda E, A, r, p: done(E, A, r, E.len(fold(E)(M(E))), M(E)))

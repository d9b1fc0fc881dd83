"""C12: contracts on merging of tracking measurements and on the tracking metrics built from them."""
from spec import *

D = ANON
i, j, k = z3.Ints('spec!i spec!j spec!k')
CNT = ('num_misses', 'num_fps', 'num_mismatches', 'matching_cost', 'num_matches', 'num_objects_gt')
HEAD = ('generator_id', 'shard', 'difficulty_level')
MEAS = NS + 'TrackingMeasurements'


def ms(E, t):
    return E.get(t, 'measurements')


def merged(E, a, b, r):
    """r is the sum of measurements a and b"""
    return [('add ' + f, E.get(r, f) == E.get(a, f) + E.get(b, f)) for f in CNT] + [('same cutoff', E.get(r, 'score_cutoff') == E.get(a, 'score_cutoff'))]


def heads(E, a, b):
    return And(*[g(E, a, 'breakdown.' + f) == g(E, b, 'breakdown.' + f) for f in HEAD])


def fits(E, a, b):
    """two measurement lists of the same breakdown and cutoffs (an empty one goes with any)"""
    n = E.len(ms(E, a))
    return Or(n == 0, And(n == E.len(ms(E, b)), heads(E, a, b), forall([j], Implies(inr(j, n), E.get(E.at(ms(E, a), j), 'score_cutoff') == E.get(E.at(ms(E, b), j), 'score_cutoff')), [E.at(ms(E, a), j)])))


def vfits(E, a, b):
    ea, eb = E.at(a, i), E.at(b, i)
    n = E.len(ms(E, ea))
    both = And(E.len(a) > 0, E.len(b) > 0)
    return [Implies(both, E.len(a) == E.len(b)),
            Implies(both, forall([i], Implies(inr(i, E.len(a)), Or(n == 0, And(n == E.len(ms(E, eb)), heads(E, ea, eb)))), [ea])),
            Implies(both, forall([i, j], Implies(And(inr(i, E.len(a)), inr(j, n)), E.get(E.at(ms(E, ea), j), 'score_cutoff') == E.get(E.at(ms(E, eb), j), 'score_cutoff')), [E.at(ms(E, ea), j)]))]


def rest(E, r, a):
    return And(*[E.get(r, n) == E.get(a, n) for n, _, _ in E.info(r).fields if n != 'measurements'])


def madd(E, r, a, b, upto=None):
    n = E.len(ms(E, a)) if upto is None else upto
    R_, A_, B_ = ms(E, r), ms(E, a), ms(E, b)
    return [(nm, forall([i], Implies(inr(i, n), f), [E.at(R_, i)])) for nm, f in merged(E, E.at(A_, i), E.at(B_, i), E.at(R_, i))]


def sums(S):
    q1, q2, q3 = D + 'MergeTrackingMeasurement', D + 'MergeTrackingMeasurements', D + 'MergeTrackingMeasurementsVector'
    S.fn(q1, requires=lambda E, A: [E.get(A[0], 'score_cutoff') == E.get(A[1], 'score_cutoff')], ensures=lambda E, A, r, p: merged(E, A[0], A[1], r))
    c1 = lambda E: {q1: Contract(q1, requires=lambda A: [('same cutoff', E.get(A[0], 'score_cutoff') == E.get(A[1], 'score_cutoff'))], ensures=lambda A, r, p: [f for _, f in merged(E, A[0], A[1], r)])}

    def l2(E, L):
        m, old, n = L.v('m'), E.A['m'], L.v('i')
        return [('same breakdown and number of cutoffs', And(rest(E, m, old), E.len(ms(E, m)) == E.len(ms(E, old)))),
                ('not reached yet', forall([i], Implies(And(i >= n, i < E.len(ms(E, old))), E.at(ms(E, m), i) == E.at(ms(E, old), i)), [E.at(ms(E, m), i)]))] + madd(E, m, old, E.A['new_m'], n)

    def s2(E, A, p):
        old, new, m = A['m'], A['new_m'], p['m']
        e = E.len(ms(E, old)) == 0
        return [('an empty list takes the new one', Implies(e, m == new)), ('same breakdown and number of cutoffs', Implies(Not(e), And(rest(E, m, old), E.len(ms(E, m)) == E.len(ms(E, old)))))] + [
                (n, Implies(Not(e), f)) for n, f in madd(E, m, old, new)]
    S.fn(q2, requires=lambda E, A: [fits(E, A['m'], A['new_m'])], ensures=lambda E, A, r, p: s2(E, A, p), callees=c1, loops={0: l2})

    add = lambda E: z3.Function('sum of measurement lists', *([E.S.sort(MEAS)] * 3))
    c2 = lambda E: {q2: Contract(q2, requires=lambda A: [('compatible', fits(E, A[1], A[0]))], ensures=lambda A, r, p: [p['m'] == add(E)(A[1], A[0])], modifies=('m',), args=('new_m', 'm'))}

    def l3(E, L):
        m, old, new, n = L.v('m'), E.A['m'], E.A['new_m'], L.v('i')
        return [('element by element', And(E.len(m) == E.len(old), forall([i], Implies(inr(i, E.len(old)), E.at(m, i) == If(i < n, add(E)(E.at(old, i), E.at(new, i)), E.at(old, i))), [E.at(m, i)])))]

    def s3(E, A, p):
        old, new, m = A['m'], A['new_m'], p['m']
        e, n = E.len(old) == 0, E.len(new) == 0
        return [('an empty vector takes the new one', Implies(e, m == new)), ('nothing new', Implies(And(Not(e), n), m == old)), ('as many breakdowns', Implies(Not(e), E.len(m) == E.len(old))),
                ('element by element', Implies(And(Not(e), Not(n)), forall([i], Implies(inr(i, E.len(old)), E.at(m, i) == add(E)(E.at(old, i), E.at(new, i))), [E.at(m, i)])))]
    S.fn(q3, requires=lambda E, A: vfits(E, A['m'], A['new_m']), ensures=lambda E, A, r, p: s3(E, A, p), callees=c2, loops={0: l3})
    return q3


# ---- metrics of one list of measurements -------------------------------------------------

def ratios(E, m):
    n = z3.ToReal(E.get(m, 'num_objects_gt'))
    a, b, c = [z3.ToReal(E.get(m, f)) / n for f in ('num_misses', 'num_fps', 'num_mismatches')]
    k = E.get(m, 'num_matches')
    return dict(miss=a, fp=b, mismatch=c, mota=1 - (a + b + c), motp=If(k > 0, E.get(m, 'matching_cost') / z3.ToReal(k), R(0)), score_cutoff=E.get(m, 'score_cutoff'))


def best(E):
    """the first cutoff with the largest positive accuracy among the first n, -1 when there is none"""
    return z3.Function('best cutoff', E.S.sort(MEAS), z3.IntSort(), z3.IntSort())


def bestax(E, m):
    b = best(E)
    q = E.at(ms(E, m), k)
    cur = b(m, k)
    top = If(cur < 0, R(0), ratios(E, E.at(ms(E, m), cur))['mota'])
    return [b(m, I0) == -1, forall([k], Implies(k >= 0, b(m, k + 1) == If(And(E.get(q, 'num_objects_gt') != 0, ratios(E, q)['mota'] > top), k, cur)), [q])]


def metric(E, m, r, n):
    """metrics r of measurement list m, the first n cutoffs considered"""
    b = best(E)(m, n)
    w = ratios(E, E.at(ms(E, m), b))
    q = E.at(ms(E, m), i)
    return [('a cutoff', And(b >= -1, b < n))] + [
            (f + ' of the best cutoff', E.get(r, f) == If(b < 0, R(0), w[f])) for f in w] + [
            ('the best cutoff has ground truths and a positive accuracy', Implies(b >= 0, And(E.get(E.at(ms(E, m), b), 'num_objects_gt') != 0, w['mota'] > 0))),
            ('no cutoff is better', forall([i], Implies(And(inr(i, n), E.get(q, 'num_objects_gt') != 0), ratios(E, q)['mota'] <= E.get(r, 'mota')), [q])),
            ('no earlier cutoff is as good', forall([i], Implies(And(inr(i, b), E.get(q, 'num_objects_gt') != 0), ratios(E, q)['mota'] < E.get(r, 'mota')), [q]))] + [
            ('the measurements are kept', And(E.get(r, 'measurements') == m, E.get(r, 'breakdown') == E.get(m, 'breakdown')))]


def build(S):
    q3 = sums(S)
    q4 = D + 'ToTrackingMetrics'
    S.fn(q4, requires=lambda E, A: bestax(E, A['measurements']), ensures=lambda E, A, r, p: metric(E, A['measurements'], r, E.len(ms(E, A['measurements']))),
         loops={0: lambda E, L: metric(E, E.A['measurements'], L.v('metrics'), L.k)})
    top(S, q3, q4)


def top(S, q3, q4):
    """merging any number of scenes gives the totals over the scenes; one metrics message per breakdown, in order"""
    tot = {f: z3.Function('total ' + f, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort() if f == 'matching_cost' else z3.IntSort()) for f in CNT}
    conv = lambda E: z3.Function('metrics of', E.S.sort(MEAS), E.S.sort(NS + 'TrackingMetrics'))
    of = lambda E: z3.Function('measurements of a scene', E.S.sort(NS + 'Config'), scene(E), scene(E), E.S.vec(MEAS))
    est = lambda E: z3.Const('configuration with estimated cutoffs', E.S.sort(NS + 'Config'))

    def scene(E):
        return E.at(E.A['pds'], I0).sort()

    def shape(E, at, n):
        """every scene has the same breakdowns and cutoffs"""
        a, b = E.at(at(k), i), E.at(at(I0), i)
        ma, mb = E.at(ms(E, a), j), E.at(ms(E, b), j)
        N = E.len(at(I0))
        return [forall([k], Implies(inr(k, n), E.len(at(k)) == N), [at(k)]), N > 0,
                forall([k, i], Implies(And(inr(k, n), inr(i, N)), And(E.len(ms(E, a)) == E.len(ms(E, b)), E.len(ms(E, a)) > 0, heads(E, a, b))), [a]),
                forall([k, i, j], Implies(And(inr(k, n), inr(i, N), inr(j, E.len(ms(E, b)))), E.get(ma, 'score_cutoff') == E.get(mb, 'score_cutoff')), [ma])]

    def tax(E, at):
        out = []
        for f in CNT:
            z = R(0) if f == 'matching_cost' else I0
            q = E.at(ms(E, E.at(at(k), i)), j)
            out += [forall([i, j], tot[f](i, j, I0) == z, [tot[f](i, j, I0)]), forall([i, j, k], Implies(k >= 0, tot[f](i, j, k + 1) == tot[f](i, j, k) + E.get(q, f)), [q])]
        return out

    def upto(E, v, at, n):
        F = at(I0)
        e = E.at(v, i)
        m = E.at(ms(E, e), j)
        return [('as many breakdowns', E.len(v) == E.len(F)),
                ('same breakdowns and cutoffs', forall([i], Implies(inr(i, E.len(F)), And(E.len(ms(E, e)) == E.len(ms(E, E.at(F, i))), heads(E, e, E.at(F, i)))), [e])),
                ('cutoffs', forall([i, j], Implies(And(inr(i, E.len(F)), inr(j, E.len(ms(E, E.at(F, i))))), E.get(m, 'score_cutoff') == E.get(E.at(ms(E, E.at(F, i)), j), 'score_cutoff')), [m]))] + [
                ('total ' + f, forall([i, j], Implies(And(inr(i, E.len(F)), inr(j, E.len(ms(E, E.at(F, i))))), E.get(m, f) == tot[f](i, j, n)), [m])) for f in CNT]

    def cal(E):
        def ens(A, r, p):
            a, b, m = A[1], A[0], p['m']
            ea, eb, em = E.at(a, i), E.at(b, i), E.at(m, i)
            ne = And(E.len(a) > 0, E.len(b) > 0)
            return [Implies(E.len(a) == 0, m == b), Implies(And(E.len(a) > 0, E.len(b) == 0), m == a), Implies(ne, E.len(m) == E.len(a)),
                    Implies(ne, forall([i], Implies(And(inr(i, E.len(a)), E.len(ms(E, ea)) > 0), And(E.len(ms(E, em)) == E.len(ms(E, ea)), rest(E, em, ea))), [em])),
                    Implies(ne, forall([i, j], Implies(And(inr(i, E.len(a)), inr(j, E.len(ms(E, ea)))), And(*[f for _, f in merged(E, E.at(ms(E, ea), j), E.at(ms(E, eb), j), E.at(ms(E, em), j))])), [E.at(ms(E, em), j)]))]
        return {q3: Contract(q3, requires=lambda A: [('compatible', And(*vfits(E, A[1], A[0])))], ensures=ens, modifies=('m',), args=('new_m', 'm')),
                q4: Contract(q4, ensures=lambda A, r, p: [r == conv(E)(A[0]), E.get(r, 'measurements') == A[0]]),
                NS + 'EstimateScoreCutoffs': Contract(NS + 'EstimateScoreCutoffs', requires=lambda A: [('of the same evaluation', And(A[1] == E.A['pds'], A[2] == E.A['gts'], A[0] == E.A['config']))], ensures=lambda A, r, p: [r == est(E)]),
                NS + 'ComputeTrackingMeasurements': Contract(NS + 'ComputeTrackingMeasurements', ensures=lambda A, r, p: [r == of(E)(A[0], A[1], A[2])])}

    def done(E, r, at, n, upto_):
        """r: metrics of the totals"""
        q = E.at(r, i)
        m = E.get(q, 'measurements')
        e = E.at(ms(E, m), j)
        F = at(I0)
        out = [('a metrics message per breakdown', And(E.len(r) == upto_, forall([i], Implies(inr(i, upto_), And(q == conv(E)(m), heads(E, m, E.at(F, i)), E.len(ms(E, m)) == E.len(ms(E, E.at(F, i))))), [q])))]
        return out + [('metrics are of the total ' + f, forall([i, j], Implies(And(inr(i, upto_), inr(j, E.len(ms(E, E.at(F, i))))), E.get(e, f) == tot[f](i, j, n)), [e])) for f in CNT]

    def left(E, v, at, n, from_):
        """entries not converted yet still are the totals"""
        F = at(I0)
        e = E.at(v, i)
        m = E.at(ms(E, e), j)
        w = And(i >= from_, i < E.len(F))
        return [('as many breakdowns', E.len(v) == E.len(F)), ('not converted: breakdowns', forall([i], Implies(w, And(E.len(ms(E, e)) == E.len(ms(E, E.at(F, i))), heads(E, e, E.at(F, i)))), [e]))] + [
                ('not converted: total ' + f, forall([i, j], Implies(And(w, inr(j, E.len(ms(E, E.at(F, i))))), E.get(m, f) == tot[f](i, j, n)), [m])) for f in CNT]

    def inv0(E, L, var, at, n):
        v = L.v(var)
        return [('nothing before the first scene', Implies(n == 0, E.len(v) == 0))] + [(nm, Implies(n > 0, f)) for nm, f in upto(E, v, at, n)]

    def suite(label, nparams, N, at, var, extra):
        S.fn(NS + 'ComputeTrackingMetrics', label='ComputeTrackingMetrics (%s)' % label, nparams=nparams, callees=cal,
             requires=lambda E, A: [Implies(N(E) > 0, f) for f in shape(E, at(E), N(E))] + tax(E, at(E)) + extra(E, A),
             loops={0: lambda E, L: inv0(E, L, var, at(E), L.v('scene_idx')),
                    1: lambda E, L: [(n, Implies(N(E) > 0, f)) for n, f in done(E, L.v('metrics'), at(E), N(E), L.k) + left(E, L.v(var), at(E), N(E), L.k)] + [('nothing', Implies(N(E) == 0, E.len(L.v('metrics')) == 0))]},
             ensures=lambda E, A, r, p: [(n, Implies(N(E) > 0, f)) for n, f in done(E, r, at(E), N(E), E.len(at(E)(I0)))] + [('nothing from no scenes', Implies(N(E) == 0, E.len(r) == 0))])
    suite('measurements', 2, lambda E: E.len(E.A['measurements']), lambda E: (lambda n: E.at(E.A['measurements'], n)), 'measurements_merged', lambda E, A: [])

    def frames(E):
        c = If(E.len(E.get(E.A['config'], 'score_cutoffs')) > 0, E.A['config'], est(E))
        return lambda n: of(E)(c, E.at(E.A['pds'], n), E.at(E.A['gts'], n))
    suite('scenes', 3, lambda E: E.len(E.A['pds']), frames, 'measurements', lambda E, A: [E.len(A['pds']) == E.len(A['gts']), forall([k], E.len(frames(E)(k)) >= 0, [frames(E)(k)])])

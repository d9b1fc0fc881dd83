"""C21: the rater feedback score (rater_feedback_utils.py)."""
from fractions import Fraction
from spec import *
from wodvc import py as P, pynp
import c20

MOD = c20.MOD
b, p, t, i, k, n = z3.Ints('spec!b spec!p spec!t spec!i spec!k spec!n')
INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
F = lambda x: z3.RealVal(str(Fraction(x)))          # the double nearest to a decimal
SEC, BASE = (3, 5), (F(1.0), F(1.8))


def clip(x, lo, hi):
    x = If(x >= lo, x, lo)
    return If(x <= hi, x, hi)


def scale(E, v):
    return clip(R('1/2') + E.div(F(.5) * (v - F(1.4)), F(11 - 1.4)), R('1/2'), R('1'))


def build(S):
    c20.build(S)
    # ---- thresholds
    def th(E, A, r, _):
        lat, lng = [E.val(x) for x in r]
        v = A.init_speed
        m = A.lat_lng_threshold_multipliers
        rg = inr(b, v.n)
        return [('shape', And(lat.shape[0] == v.n, lat.shape[1] == 2, lng.shape[0] == v.n, lng.shape[1] == 2))] + [
            ('%s threshold at %d s' % (nm, SEC[q]), forall([b], Implies(rg, x(b, z3.IntVal(q)) == scale(E, v(b)) * (BASE[q] * m[j])), [v(b)])) for j, (nm, x) in enumerate((('lateral', lat), ('longitudinal', lng))) for q in range(2)]
    S.pyfn(MOD, 'get_lat_lng_thresholds', dict(init_speed=('nd', 'real', [None]), lat_lng_threshold_multipliers=('tuple', 'real', 'real')), ensures=th)

    # ---- score
    X = lambda *q: z3.Function('rater point', INT, INT, INT, INT, REAL)(*q)
    LB = lambda *q: z3.Function('rater label', INT, INT, REAL)(*q)
    D = [z3.Function('direction ' + c, INT, INT, INT, REAL) for c in 'xy']
    MX = z3.Function('best rater', INT, INT, INT, REAL)
    WH = z3.Function('which rater', INT, INT, INT, INT)
    IN = z3.Function('within', INT, INT, BOOL)
    WI = z3.Function('within which', INT, INT, INT)
    SUM = z3.Function('weighted sum', INT, INT, REAL)
    ND = z3.Function('normalised distance', INT, INT, INT, INT, REAL)
    LNG, LAT = [z3.Function(nm + ' distance', INT, INT, INT, INT, REAL) for nm in ('longitudinal', 'lateral')]
    TH = [z3.Function(nm + ' threshold', INT, INT, REAL) for nm in ('lateral', 'longitudinal')]
    SC = z3.Function('score of proposal', INT, INT, REAL)

    def dims(A):
        B, I, T = A.inference_trajectories.shape[:3]
        return B, I, T, A.default_num_of_rater_specified_trajectories

    def step(bb, pp, tt, c):
        prev = If(tt > 0, X(bb, pp, tt - 1, z3.IntVal(c)), R('0'))
        return X(bb, pp, tt, z3.IntVal(c)) - prev

    def pair(E, A, bb, pp, ii, kk):
        return E.mul(LB(bb, pp), E.power(A.decay_factor, If(ND(bb, pp, ii, kk) - 1 >= 0, ND(bb, pp, ii, kk) - 1, R('0'))))

    def ghosts(E, A):
        """the definition of the score"""
        B, I, T, NP = dims(A)
        J = A.inference_trajectories
        m = A.lat_lng_threshold_multipliers
        out = []
        still = lambda bb, pp, tt: And(step(bb, pp, tt, 0) == 0, step(bb, pp, tt, 1) == 0)
        for c in range(2):
            d = D[c]
            out += [forall([b, p], d(b, p, I0) == If(still(b, p, I0), R('10'[c]), step(b, p, I0, c)), [d(b, p, I0)]),
                    forall([b, p, t], Implies(t >= 0, d(b, p, t + 1) == If(still(b, p, t + 1), d(b, p, t), step(b, p, t + 1, c))), [d(b, p, t + 1)])]
        for q in range(2):
            tt = SEC[q] * A.frequency - 1
            e = [J(b, i, tt, z3.IntVal(c)) - X(b, p, tt, z3.IntVal(c)) for c in range(2)]
            dx, dy = [D[c](b, p, tt) for c in range(2)]
            M = E.mul
            kk = z3.IntVal(q)
            dy1 = dy * -1
            n1, n2 = pynp.sqrt(E, M(dx, dx) + M(dy, dy)), pynp.sqrt(E, M(dy1, dy1) + M(dx, dx))
            u = [E.div(dx, n1), E.div(dy, n1)]
            w = [E.div(dy1, n2), E.div(dx, n2)]
            rg = And(inr(b, B), inr(p, NP), inr(i, I))
            # along and across the direction of travel of the rater trajectory
            for nm, uv in ((LNG, u), (LAT, w)):
                pr = z3.Function(nm.name() + ' projection', INT, INT, INT, INT, REAL)(b, p, i, kk)
                out.append(forall([b, p, i], Implies(rg, pr == M(uv[0], e[0]) + M(uv[1], e[1])), [pr]))
                out.append(forall([b, p, i], Implies(rg, nm(b, p, i, kk) == If(pr >= 0, pr, -pr)), [nm(b, p, i, kk)]))
            for j in range(2):
                out.append(forall([b], Implies(inr(b, B), TH[j](b, kk) == M(scale(E, A.init_speed(b)), BASE[q] * m[j])), [TH[j](b, kk)]))
            a, c = E.div(LNG(b, p, i, kk), TH[1](b, kk)), E.div(LAT(b, p, i, kk), TH[0](b, kk))
            out.append(forall([b, p, i], Implies(And(inr(b, B), inr(p, NP), inr(i, I)), ND(b, p, i, z3.IntVal(q)) == If(a >= c, a, c)), [ND(b, p, i, z3.IntVal(q))]))
        rg = And(inr(b, B), inr(i, I), inr(k, 2))
        out += [forall([b, i, k], Implies(rg, And(inr(WH(b, i, k), NP), MX(b, i, k) == pair(E, A, b, WH(b, i, k), i, k))), [MX(b, i, k)]),
                forall([b, i, k, p], Implies(And(rg, inr(p, NP)), MX(b, i, k) >= pair(E, A, b, p, i, k)), [z3.MultiPattern(MX(b, i, k), ND(b, p, i, k))]),
                ]
        inside = lambda pp: And(*[ND(b, pp, i, z3.IntVal(q)) <= 1 for q in range(2)])
        rg = And(inr(b, B), inr(i, I))
        out += [forall([b, i], Implies(And(rg, IN(b, i)), And(inr(WI(b, i), NP), inside(WI(b, i)))), [IN(b, i)]),
                forall([b, i, p], Implies(And(rg, inr(p, NP), inside(p)), IN(b, i)), [z3.MultiPattern(IN(b, i), ND(b, p, i, I0))])]
        mean = (MX(b, i, I0) + MX(b, i, z3.IntVal(1))) / 2
        f = A.minimum_score_outside_trust_region
        out.append(forall([b, i], Implies(rg, SC(b, i) == If(IN(b, i), mean, If(f >= mean, f, mean))), [SC(b, i)]))
        out += [forall([b], SUM(b, I0) == 0, [SUM(b, I0)]), forall([b, n], Implies(And(inr(b, B), inr(n, I)), SUM(b, n + 1) == SUM(b, n) + E.mul(SC(b, n), A.inference_probs(b, n))), [SUM(b, n + 1)])]
        return out

    def fit(E, A, r):
        x, y = [E.val(q) for q in r]
        C = A.trajectory_batches
        NP, T = A.target_num_trajectories_per_batch, A.target_num_waypoints
        return [q == w for q, w in zip(x.shape, (C.n, NP, T, z3.IntVal(2)))] + [q == w for q, w in zip(y.shape, (C.n, NP))] + [
            forall([b, p, t, k], x(b, p, t, k) == X(b, p, t, k), [x(b, p, t, k)]), forall([b, p], y(b, p) == LB(b, p), [y(b, p)])]
    proc = {'process_rater_specified_trajectories': P.PyContract(['trajectory_batches', 'trajectory_labels_batches', 'target_num_waypoints', 'target_num_trajectories_per_batch'],
                                                                ('tuple', ('nd', 'real', [None, None, None, 2]), ('nd', 'real', [None, None])), ensures=fit,
                                                                requires=lambda E, A: [('precondition %d' % j, g) for j, g in enumerate(c20.needs(A) + [c20.agree(A)])])}

    def inv(E, L):
        B, I, T, NP = dims(E.A)
        x = L.v('lng_directions')
        rg = And(inr(b, B), inr(p, NP), inr(t, T))
        return [('directions so far, ' + 'xy'[c], forall([b, p, t], Implies(rg, x(b, p, t, z3.IntVal(c)) == If(t < L.k + 1, D[c](b, p, t), step(b, p, t, c))), [x(b, p, t, z3.IntVal(c))])) for c in range(2)] + [
            ('a direction', forall([b, p, t], Implies(And(rg, t < L.k + 1), Or(D[0](b, p, t) != 0, D[1](b, p, t) != 0)), [D[0](b, p, t)]))]

    def pre(E, A):
        B, I, T, NP = dims(A)
        m = A.lat_lng_threshold_multipliers
        return [z3.Int('dimensions') == 2, A.length_seconds * A.frequency > 0, B > 0, NP > 0, I > 0, T > 0, A.rater_specified_trajectories.n == B, A.inference_probs.shape[0] == B, A.inference_probs.shape[1] == I, A.init_speed.n == B, A.frequency > 0, m[0] > 0, m[1] > 0,
                A.decay_factor > 0, A.decay_factor <= 1] + c20.ragged(A.rater_specified_trajectories) + [c20.counts(A.rater_specified_trajectories, A.rater_feedback_labels)] + ghosts(E, A)

    def bad(E, A):
        T = A.inference_trajectories.shape[2]
        return {'ValueError': Or(T != A.length_seconds * A.frequency, T < 5 * A.frequency)}

    def post(E, A, r, _):
        B, I, T, NP = dims(A)
        fs = getattr(E, 'folds', [])
        mx, an = [f for f in fs if f[0] == 'max'][-1], [f for f in fs if f[0] == 'any'][-1]
        rg = And(inr(b, B), inr(p, NP), inr(i, I))
        for q in range(2):
            kk = z3.IntVal(q)
            E.oblige('score of a pair at %d s' % SEC[q], forall([b, p, i], Implies(rg, mx[3](b, p, i, kk) == pair(E, A, b, p, i, kk)), [mx[3](b, p, i, kk), ND(b, p, i, kk)]), 'ensures')
        E.oblige('within the trust region of a rater', forall([b, p, i], Implies(rg, an[3](b, p, i) == And(ND(b, p, i, I0) <= 1, ND(b, p, i, z3.IntVal(1)) <= 1)), [an[3](b, p, i), ND(b, p, i, I0)]), 'ensures')
        rg = And(inr(b, B), inr(i, I))
        for q in range(2):
            kk = z3.IntVal(q)
            E.oblige('best rater at %d s' % SEC[q], forall([b, i], Implies(rg, mx[1](b, i, kk) == MX(b, i, kk)), [mx[1](b, i, kk)]), 'ensures')
        E.oblige('within the trust region of any rater', forall([b, i], Implies(rg, an[1](b, i) == IN(b, i)), [an[1](b, i)]), 'ensures')
        sm = E.last_sum
        E.induct('weighted sums', I, lambda q: forall([b], Implies(inr(b, B), sm(b, q) == SUM(b, q)), [sm(b, q)]), lambda q: None)
        s = E.val(dict(r.items)['rater_feedback_score'])
        return [('one score per example', And(z3.BoolVal(s.rank == 1), s.shape[0] == B)), ('score', forall([b], Implies(inr(b, B), s(b) == SUM(b, I)), [s(b)]))]
    S.pyfn(MOD, 'get_rater_feedback_score', dict(inference_trajectories=('nd', 'real', [None, None, None, 2]), inference_probs=('nd', 'real', [None, None]), rater_specified_trajectories=c20.TRAJ, rater_feedback_labels=c20.LAB,
                                                 init_speed=('nd', 'real', [None]), lat_lng_threshold_multipliers=('tuple', 'real', 'real'), decay_factor='real', frequency='int', length_seconds='int', minimum_score_outside_trust_region='real',
                                                 default_num_of_rater_specified_trajectories='int', output_trust_region_visualization='bool'),
           requires=pre, callees=proc, loops={0: inv}, ensures=post, raises=bad, opts=dict(ufdiv=True, ufmul=True, name_arrays=True))

    l, w, x, y, f, mx = z3.Reals('l w x y f mx')
    S.lemma('a decayed label is between zero and the label', [l >= 0, w >= 0, w <= 1], And(l * w >= 0, l * w <= l))
    S.lemma('the score of a proposal is at most the best label or the floor', [x <= mx, y <= mx], And((x + y) / 2 <= mx, If(f >= (x + y) / 2, f, (x + y) / 2) <= If(f >= mx, f, mx), If(f >= (x + y) / 2, f, (x + y) / 2) >= f))

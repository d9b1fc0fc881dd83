"""C15: contracts on the motion metrics (motion_metrics.cc, motion_metrics_utils.cc)."""
from spec import *
import math
import sys as _s

i, j, k, x = z3.Ints('spec!i spec!j spec!k spec!x')
MAXD = z3.RealVal(str(int(_s.float_info.max)))
OK = lambda E, r: E.get(r, '_code') == 0


def dom(E, s, v):
    return z3.Select(E.get(s, 'dom'), v)


def val(E, s, v):
    return z3.Select(E.get(s, 'val'), v)


def absr(v):
    return If(v >= 0, v, -v)


class Mo:
    """what the metrics of one configuration are computed from"""
    def __init__(self, E, c=None):
        self.E, self.c = E, c
        self.I, self.R, self.B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        self.step = E.func('spec_track step', self.I, self.I)
        self.tr_s = E.sort(NS + 'SingleTrajectory')
        self.T_s = E.sort(NS + 'Track')
        self.J_s = E.sort(NS + 'JointTrajectories')
        self.P_s = E.sort(NS + 'MultimodalPrediction')

    def f(self, n):
        return self.E.get(self.c, n)

    def stepdef(self, s):
        return (s + 1) * (self.f('track_steps_per_second') / self.f('prediction_steps_per_second')) + self.f('track_history_samples')

    def truth(self, T, s):
        return self.E.at(self.E.get(T, 'states'), self.step(s))

    def valid(self, T, s):
        return self.E.get(self.truth(T, s), 'valid')

    def delta(self, tr, T, s):
        E, q = self.E, self.truth(T, s)
        return (E.at(E.get(tr, 'center_x'), s) - E.get(q, 'center_x'), E.at(E.get(tr, 'center_y'), s) - E.get(q, 'center_y'))

    def dist(self, tr, T, s):
        a, b = self.delta(tr, T, s)
        return sqrt(self.E, a * a + b * b)

    # sums over the first n steps
    def sums(self):
        E = self.E
        err, cnt = E.func('spec_sum of distances', self.tr_s, self.T_s, self.I, self.R), E.func('spec_number of valid steps', self.tr_s, self.T_s, self.I, self.I)
        return err, cnt

    def sums_ax(self, tr, T):
        E = self.E
        err, cnt = self.sums()
        v = self.valid(T, k)
        return [err(tr, T, I0) == 0, cnt(tr, T, I0) == 0,
                forall([k], Implies(k >= 0, err(tr, T, k + 1) == err(tr, T, k) + If(v, self.dist(tr, T, k), R(0))), [err(tr, T, k + 1), z3.MultiPattern(err(tr, T, k), self.truth(T, k))]),
                forall([k], Implies(k >= 0, cnt(tr, T, k + 1) == cnt(tr, T, k) + If(v, z3.IntVal(1), I0)), [cnt(tr, T, k + 1), z3.MultiPattern(cnt(tr, T, k), self.truth(T, k))])]

    def ade1(self):
        """mean distance of one predicted trajectory (final: only the last step): defined, and its value"""
        E = self.E
        return E.func('spec_ade of a trajectory defined', self.tr_s, self.T_s, self.I, self.B, self.B), E.func('spec_ade of a trajectory', self.tr_s, self.T_s, self.I, self.B, self.R)

    def ids(self, J, q):
        E = self.E
        return E.get(E.at(E.get(J, 'trajectories'), q), 'object_id')

    def trk(self, m, y):
        return self.E.get(val(self.E, m, y), 'val')

    def traj(self, J, q):
        return self.E.at(self.E.get(J, 'trajectories'), q)

    def ntr(self, J):
        return self.E.len(self.E.get(J, 'trajectories'))

    def known(self, J, m):
        """every object of the joint prediction has a track"""
        E = self.E
        return forall([k], Implies(inr(k, self.ntr(J)), And(dom(E, m, self.ids(J, k)), E.get(val(E, m, self.ids(J, k)), 'has'))), [self.traj(J, k)])

    def sizes(self, tr, T):
        E = self.E
        n = self.nsteps()
        return And(E.len(E.get(tr, 'center_x')) == n, E.len(E.get(tr, 'center_y')) == n, E.len(E.get(T, 'states')) == self.nstates())

    def nsteps(self):
        return self.E.func('spec_predicted steps', self.I)()

    def nstates(self):
        return self.E.func('spec_track states', self.I)()

    def mapping(self):
        """predicted steps map into the track (a lemma over the accepted configurations)"""
        return [forall([k], Implies(inr(k, self.nsteps()), inr(self.step(k), self.nstates())), [self.step(k)])]

    def shaped(self, J, m):
        E = self.E
        return forall([k], Implies(inr(k, self.ntr(J)), self.sizes(self.traj(J, k), self.trk(m, self.ids(J, k)))), [self.traj(J, k)])


PTS = NS + 'PredictionToTrackStep'


def step_contract(E, c=None):
    M = Mo(E)
    return {PTS: Contract(PTS, ensures=lambda A, r, p: [r == M.step(A[1])])}


def build(S):
    steps(S)
    displacement(S)
    joint_ade(S)
    min_ade(S)
    speed(S)
    match(S)
    miss(S)
    confidences(S)
    overlap(S)
    sorting(S)
    precision_recall(S)
    accumulate(S)
    polygons(S)
    classify(S)
    priorities(S)
    samples(S)
    from c14 import track_of
    track_of(S)


def steps(S):
    pos = lambda E, A: [E.get(A['config'], 'prediction_steps_per_second') >= 1, E.get(A['config'], 'track_steps_per_second') >= E.get(A['config'], 'prediction_steps_per_second')]
    S.fn(NS + 'CurrentTrackStep', ensures=lambda E, A, r, p: [('the last history step', r == E.get(A['config'], 'track_history_samples'))])
    S.fn(PTS, requires=pos, ensures=lambda E, A, r, p: [('the track step of the predicted step', r == Mo(E, A['config']).stepdef(A['prediction_step']))])
    q, ps, ts, fut, h, s, n = z3.Ints('q ps ts fut h s n')
    S.lemma('the ratio of the rates', [ps >= 1, q >= 1, ts == q * ps], ts / ps == q)
    S.lemma('a predicted step lies before the end of the future (1)', [ps >= 1, ts >= 1, fut >= 0, n == (fut * ps) / ts, s >= 0, s < n], (s + 1) * ts <= fut * ps)
    S.lemma('a predicted step lies before the end of the future (2)', [ps >= 1, q >= 1, (s + 1) * q * ps <= fut * ps], (s + 1) * q <= fut)
    S.lemma('a predicted step maps inside the track', [q >= 1, s >= 0, h >= 0, (s + 1) * q <= fut], And((s + 1) * q + h >= 0, (s + 1) * q + h < h + fut + 1))


def displacement(S):
    def req(E, A):
        M = Mo(E, A['config'])
        return M.mapping() + [M.sizes(A['trajectory'], A['track'])]

    def at(E, A, r, p):
        M = Mo(E, A['config'])
        s = A['trajectory_step']
        return [('defined exactly when the true state is valid', E.get(r, 'has') == M.valid(A['track'], s)), ('distance to the true position', Implies(E.get(r, 'has'), E.get(r, 'val') == M.dist(A['trajectory'], A['track'], s)))]
    rq = lambda E, A: req(E, A) + [inr(A['trajectory_step'], Mo(E).nsteps())]
    S.fn(ANON + 'DisplacementAtStep', callees=step_contract, requires=rq, ensures=at)

    def lat(E, A, r, p):
        M = Mo(E, A['config'])
        s = A['trajectory_step']
        dx, dy = M.delta(A['trajectory'], A['track'], s)
        h = -E.get(M.truth(A['track'], s), 'heading')
        co, si = E.func('cos', z3.RealSort(), z3.RealSort()), E.func('sin', z3.RealSort(), z3.RealSort())
        v = E.get(r, 'val')
        return [('defined exactly when the true state is valid', E.get(r, 'has') == M.valid(A['track'], s)),
                ('longitudinal: along the true heading', Implies(E.get(r, 'has'), E.get(v, 'longitudinal') == co(h) * dx - si(h) * dy)),
                ('lateral: across the true heading', Implies(E.get(r, 'has'), E.get(v, 'lateral') == si(h) * dx + co(h) * dy))]
    S.fn(ANON + 'GetDisplacementAtStep', callees=step_contract, requires=rq, ensures=lat)

    def inv(E, L):
        M = Mo(E, E.A['config'])
        err, cnt = M.sums()
        tr, T = E.A['trajectory'], E.A['track']
        n = L.v('i')
        return [('sum so far', L.v('error') == err(tr, T, n)), ('count so far', And(L.v('state_count') == cnt(tr, T, n), cnt(tr, T, n) >= 0))]

    def ens(E, A, r, p):
        M = Mo(E, A['config'])
        err, cnt = M.sums()
        tr, T, n = A['trajectory'], A['track'], A['max_prediction_step'] + 1
        return [('defined exactly when some true state is valid', E.get(r, 'has') == (cnt(tr, T, n) > 0)), ('mean distance over the valid steps', Implies(E.get(r, 'has'), E.get(r, 'val') * z3.ToReal(cnt(tr, T, n)) == err(tr, T, n)))]
    S.fn(ANON + 'AverageDisplacement', nparams=4, label='AverageDisplacement (one trajectory)', callees=step_contract, loops={0: inv}, ensures=ens,
         requires=lambda E, A: req(E, A) + Mo(E, A['config']).sums_ax(A['trajectory'], A['track']) + [inr(A['max_prediction_step'], Mo(E).nsteps())])


def joint(M, J, m, s, f):
    """ADE of a joint prediction: defined, sum over the first n trajectories, and the definitions"""
    E = M.E
    d, v = M.ade1()
    tot = E.func('spec_sum of the ades', M.J_s, m.sort(), M.I, M.B, M.I, M.R)
    term = v(M.traj(J, k), M.trk(m, M.ids(J, k)), s, f)
    ax = [tot(J, m, s, f, I0) == 0, forall([k], Implies(k >= 0, tot(J, m, s, f, k + 1) == tot(J, m, s, f, k) + term), [tot(J, m, s, f, k + 1), z3.MultiPattern(tot(J, m, s, f, k), M.traj(J, k))])]
    upto = lambda n: forall([k], Implies(inr(k, n), d(M.traj(J, k), M.trk(m, M.ids(J, k)), s, f)), [M.traj(J, k)])
    return tot, ax, upto


GT = NS + 'GetTrack'


def get_track(E):
    return {GT: Contract(GT, args=('object_id', 'ids_to_tracks', 'track'), modifies=('track',), ensures=lambda A, r, p: [
        OK(E, r) == dom(E, A['ids_to_tracks'], A['object_id']), Implies(OK(E, r), p['track'] == val(E, A['ids_to_tracks'], A['object_id']))])}


def joint_ade(S):
    q1, q2 = ANON + 'DisplacementAtStep', ANON + 'AverageDisplacement'

    def callees(E):
        M = Mo(E)
        d, v = M.ade1()

        def one(fin, names):
            def ens(A, r, p):
                a = (A[names[1]], A[names[2]], A[names[3]], z3.BoolVal(fin))
                return [E.get(r, 'has') == d(*a), Implies(E.get(r, 'has'), And(E.get(r, 'val') == v(*a), v(*a) >= 0))]
            return ens
        rq = lambda A: [('sizes', M.sizes(A['trajectory'], A['track'])), ('step', inr(A['step'], M.nsteps()))]
        n = ('config', 'trajectory', 'track', 'step')
        c = {q1: Contract(q1, args=n, requires=rq, ensures=one(True, n)), q2: Contract(q2, args=n, requires=rq, ensures=one(False, n))}
        c.update(get_track(E))
        return c

    def a(E, A):
        return A['joint_prediction'], A['ids_to_tracks'], A['prediction_step'], A['compute_final_displacement']

    def req(E, A):
        M = Mo(E, A['config'])
        J, m, s, f = a(E, A)
        return [M.known(J, m), M.shaped(J, m), inr(s, M.nsteps()), M.ntr(J) >= 1] + joint(M, J, m, s, f)[1]

    def inv(E, L):
        M = Mo(E, E.A['config'])
        tot, _, upto = joint(M, *a(E, E.A))
        J, m, s, f = a(E, E.A)
        return [('trajectories so far are defined', upto(L.k)), ('sum so far', L.v('total_joint_ade') == tot(J, m, s, f, L.k)), ('count', L.v('ade_count') == L.k)]

    def ens(E, A, r, p):
        M = Mo(E, A['config'])
        J, m, s, f = a(E, A)
        tot, _, upto = joint(M, J, m, s, f)
        n = M.ntr(J)
        res = p['result']
        return [('succeeds', OK(E, r)), ('defined exactly when every trajectory is', E.get(res, 'has') == upto(n)), ('mean over the objects', Implies(E.get(res, 'has'), E.get(res, 'val') * z3.ToReal(n) == tot(J, m, s, f, n)))]
    S.fn(ANON + 'AverageDisplacement', nparams=6, label='AverageDisplacement (joint)', callees=callees, requires=req, loops={0: inv}, ensures=ens)


class Evaluated:
    """the first n joint predictions of a multimodal prediction"""
    def __init__(self, M, P):
        self.M, self.P, self.E = M, P, M.E
        self.v = M.E.get(P, 'joint_predictions')
        self.n = M.E.len(self.v)

    def J(self, q):
        return self.E.at(self.v, q)

    def K(self):
        """how many are evaluated: the first max_predictions"""
        mp = self.M.f('max_predictions')
        return If(And(mp >= 1, mp <= self.n), mp, self.n)

    def pre(self, m):
        """what the validation guarantees of every joint prediction, flattened"""
        M, E = self.M, self.E
        J = self.J(j)
        y = M.ids(J, k)
        return [forall([j], Implies(inr(j, self.n), M.ntr(J) >= 1), [J]),
                forall([j, k], Implies(And(inr(j, self.n), inr(k, M.ntr(J))), And(dom(E, m, y), E.get(val(E, m, y), 'has'), M.sizes(M.traj(J, k), M.trk(m, y)))), [M.traj(J, k)])]


ADE = ANON + 'AverageDisplacement'


def min_ade(S):
    def fs(E, M, m):
        return (E.func('spec_joint ade defined', M.J_s, m.sort(), M.I, M.B, M.B), E.func('spec_joint ade', M.J_s, m.sort(), M.I, M.B, M.R))

    def callees(E):
        M = Mo(E)

        def ens(A, r, p):
            d, v = fs(E, M, A['ids_to_tracks'])
            a = (A['joint_prediction'], A['ids_to_tracks'], A['prediction_step'], A['compute_final_displacement'])
            return [OK(E, r), E.get(p['result'], 'has') == d(*a), Implies(d(*a), And(E.get(p['result'], 'val') == v(*a), v(*a) >= 0, v(*a) < MAXD))]
        return {ADE: Contract(ADE, args=('config', 'joint_prediction', 'ids_to_tracks', 'prediction_step', 'compute_final_displacement', 'result'), modifies=('result',), ensures=ens, requires=lambda A: [
            ('some objects', M.ntr(A['joint_prediction']) >= 1), ('known objects', M.known(A['joint_prediction'], A['ids_to_tracks'])), ('sizes', M.shaped(A['joint_prediction'], A['ids_to_tracks'])), ('step', inr(A['prediction_step'], M.nsteps()))])}

    def parts(E, A):
        M = Mo(E, A['config'])
        V = Evaluated(M, A['multi_modal_prediction'])
        m, s, f = A['ids_to_tracks'], A['prediction_step'], A['compute_final_displacement']
        d, v = fs(E, M, m)
        has, value = (lambda q: d(V.J(q), m, s, f)), (lambda q: v(V.J(q), m, s, f))
        best, arg = E.func('spec_smallest', M.I, M.R), E.func('spec_smallest at', M.I, M.I)
        b = And(has(k), value(k) < best(k))
        ax = [best(I0) == MAXD, forall([k], Implies(k >= 0, And(best(k + 1) == If(b, value(k), best(k)), arg(k + 1) == If(b, k, arg(k)))), [best(k + 1), arg(k + 1), z3.MultiPattern(best(k), V.J(k))])]
        return M, V, has, value, best, arg, ax

    def small(E, A, n):
        M, V, has, value, best, arg, _ = parts(E, A)
        return [('no evaluated prediction is closer', forall([j], Implies(And(inr(j, n), has(j)), best(n) <= value(j)), [V.J(j)])),
                ('none is defined, or the smallest is one of them', If(best(n) == MAXD, forall([j], Implies(inr(j, n), Not(has(j))), [V.J(j)]), And(inr(arg(n), n), has(arg(n)), value(arg(n)) == best(n))))]

    def req(E, A):
        M, V, has, value, best, arg, ax = parts(E, A)
        return V.pre(A['ids_to_tracks']) + ax + [inr(A['prediction_step'], M.nsteps()), forall([j], Implies(has(j), value(j) < MAXD), [V.J(j)])]

    def inv(E, L):
        M, V, has, value, best, arg, _ = parts(E, E.A)
        mp = M.f('max_predictions')
        return [('smallest so far', L.v('min_joint_ade') == best(L.k)), ('count', L.v('count') == L.k), ('not yet enough', Implies(mp >= 1, L.k < mp))] + small(E, E.A, L.k)

    def ens(E, A, r, p):
        M, V, has, value, best, arg, _ = parts(E, A)
        n = V.K()
        old, new = A['result'], p['result']
        none = best(n) == MAXD
        return [('succeeds', OK(E, r))] + small(E, A, n) + [('nothing is added when no evaluated prediction is defined', Implies(none, new == old)),
            ('otherwise the smallest is added once', Implies(Not(none), And(E.get(new, 'total') == E.get(old, 'total') + best(n), E.get(new, 'num_measurements') == E.get(old, 'num_measurements') + 1)))]
    S.fn(ANON + 'ComputeMinAverageDisplacement', callees=callees, requires=req, loops={0: inv}, ensures=ens)


def speed(S):
    def ens(E, A, r, p):
        c, T = A['config'], A['track']
        f = lambda n: E.get(c, n)
        st = E.at(E.get(T, 'states'), f('track_history_samples'))
        vx, vy = E.get(st, 'velocity_x'), E.get(st, 'velocity_y')
        v = sqrt(E, vx * vx + vy * vy)
        lo, hi, a, b = f('speed_lower_bound'), f('speed_upper_bound'), f('speed_scale_lower'), f('speed_scale_upper')
        w = p['result']
        return [('accepted exactly for a non-empty speed range', OK(E, r) == (lo < hi)), ('slow objects: lower scale', Implies(And(OK(E, r), v <= lo), w == a)), ('fast objects: upper scale', Implies(And(OK(E, r), v >= hi), w == b)),
                ('linear in between', Implies(And(OK(E, r), lo <= v, v <= hi), (w - a) * (hi - lo) == (b - a) * (v - lo))),
                ('between the scales', Implies(And(OK(E, r), a > 0, b > 0), w > 0))]
    S.fn(ANON + 'SpeedScaleFactor', requires=lambda E, A: [E.get(A['config'], 'track_history_samples') >= 0, E.len(E.get(A['track'], 'states')) > E.get(A['config'], 'track_history_samples')], ensures=ens)


GD, SF = ANON + 'GetDisplacementAtStep', ANON + 'SpeedScaleFactor'


def scaled(E, M):
    """scaled displacement of a trajectory: defined, lateral, longitudinal (unscaled) and the scale of a track"""
    return (lambda T, s: M.valid(T, s)), E.func('spec_lateral', M.tr_s, M.T_s, M.I, M.R), E.func('spec_longitudinal', M.tr_s, M.T_s, M.I, M.R), E.func('spec_speed scale', M.T_s, M.R)


def match(S):
    def callees(E):
        M = Mo(E)
        d, la, lo, sc = scaled(E, M)
        c = get_track(E)
        c[GD] = Contract(GD, args=('config', 'trajectory', 'track', 'step'), requires=lambda A: [('sizes', M.sizes(A['trajectory'], A['track'])), ('step', inr(A['step'], M.nsteps()))],
                         ensures=lambda A, r, p: [E.get(r, 'has') == d(A['track'], A['step']), Implies(E.get(r, 'has'), And(E.get(E.get(r, 'val'), 'lateral') == la(A['trajectory'], A['track'], A['step']), E.get(E.get(r, 'val'), 'longitudinal') == lo(A['trajectory'], A['track'], A['step'])))])
        c[SF] = Contract(SF, args=('config', 'track', 'result'), modifies=('result',), requires=lambda A: [('track length', E.len(E.get(A['track'], 'states')) > E.get(A['config'], 'track_history_samples'))], ensures=lambda A, r, p: [
            OK(E, r) == (E.get(A['config'], 'speed_lower_bound') < E.get(A['config'], 'speed_upper_bound')), Implies(OK(E, r), And(p['result'] == sc(A['track']), sc(A['track']) > 0))])
        return c

    def a(E, A):
        return A['joint_prediction'], A['ids_to_tracks'], E.get(A['step_config'], 'measurement_step')

    def parts(E, A):
        M = Mo(E, A['config'])
        J, m, s = a(E, A)
        d, la, lo, sc = scaled(E, M)
        T = lambda q: M.trk(m, M.ids(J, q))
        defined = lambda n: forall([k], Implies(inr(k, n), d(T(k), s)), [M.traj(J, k)])
        tl, tg = E.get(A['step_config'], 'lateral_miss_threshold'), E.get(A['step_config'], 'longitudinal_miss_threshold')
        near = lambda n: forall([k], Implies(inr(k, n), And(absr(la(M.traj(J, k), T(k), s)) <= tl * sc(T(k)), absr(lo(M.traj(J, k), T(k), s)) <= tg * sc(T(k)))), [M.traj(J, k)])
        return M, J, m, s, T, defined, near, (la, lo, sc, tl, tg)

    def req(E, A):
        M, J, m, s, T, defined, near, _ = parts(E, A)
        return [M.known(J, m), M.shaped(J, m), inr(s, M.nsteps()), M.nstates() > M.f('track_history_samples'), M.f('track_history_samples') >= 0, forall([k], scaled(E, M)[3](T(k)) > 0, [M.traj(J, k)]), M.f('speed_lower_bound') < M.f('speed_upper_bound')]

    def inv(E, L):
        M, J, m, s, T, defined, near, (la, lo, sc, tl, tg) = parts(E, E.A)
        D, n = L.v('displacements'), L.v('index')
        return [('defined so far', defined(n)), ('count', And(L.v('measurement_count') == n, n >= 0, n <= M.ntr(J), E.len(D) == M.ntr(J))),
                ('scaled displacements so far', forall([k], Implies(inr(k, n), And(E.get(E.at(D, k), 'lateral') == la(M.traj(J, k), T(k), s) / sc(T(k)), E.get(E.at(D, k), 'longitudinal') == lo(M.traj(J, k), T(k), s) / sc(T(k)))), [E.at(D, k)]))]

    def inv1(E, L):
        M, J, m, s, T, defined, near, (la, lo, sc, tl, tg) = parts(E, E.A)
        D = L.v('displacements')
        return [('some object left the thresholds', L.v('miss') == Not(forall([k], Implies(inr(k, L.k), And(absr(E.get(E.at(D, k), 'lateral')) <= tl, absr(E.get(E.at(D, k), 'longitudinal')) <= tg)), [E.at(D, k)])))]

    def ens(E, A, r, p):
        M, J, m, s, T, defined, near, (la, lo, sc, tl, tg) = parts(E, A)
        n = M.ntr(J)
        res = p['is_tp']
        inside = forall([k], Implies(inr(k, n), And(absr(la(M.traj(J, k), T(k), s) / sc(T(k))) <= tl, absr(lo(M.traj(J, k), T(k), s) / sc(T(k))) <= tg)), [M.traj(J, k)])
        return [('succeeds', OK(E, r)), ('decided exactly when every true state is valid', E.get(res, 'has') == defined(n)),
                ('match only when every object is inside the scaled thresholds', Implies(E.get(res, 'has'), Implies(E.get(res, 'val'), inside))), ('miss only when some object is outside', Implies(E.get(res, 'has'), Implies(Not(E.get(res, 'val')), Not(inside))))]
    S.fn(ANON + 'IsMatch', callees=callees, requires=req, loops={0: inv, 1: inv1}, ensures=ens)
    l, c, t = z3.Reals('l c t')
    S.lemma('scaling the displacement is scaling the threshold', [c > 0], (absr(l / c) <= t) == (absr(l) <= t * c))


IM = ANON + 'IsMatch'


def im(E, M, m):
    return E.func('spec_match decided', M.J_s, m.sort(), M.I, M.B), E.func('spec_match', M.J_s, m.sort(), M.I, M.B)


def match_contract(E):
    M = Mo(E)

    def ens(A, r, p):
        d, v = im(E, M, A['ids_to_tracks'])
        q = (A['joint_prediction'], A['ids_to_tracks'], E.get(A['step_config'], 'measurement_step'))
        return [OK(E, r), E.get(p['is_tp'], 'has') == d(*q), Implies(d(*q), E.get(p['is_tp'], 'val') == v(*q))]
    return {IM: Contract(IM, args=('config', 'joint_prediction', 'ids_to_tracks', 'step_config', 'is_tp'), modifies=('is_tp',), ensures=ens, requires=lambda A: [
        ('known objects', M.known(A['joint_prediction'], A['ids_to_tracks'])), ('sizes', M.shaped(A['joint_prediction'], A['ids_to_tracks'])), ('step', inr(E.get(A['step_config'], 'measurement_step'), M.nsteps()))])}


def miss(S):
    def parts(E, A):
        M = Mo(E, A['config'])
        V = Evaluated(M, A['multi_modal_prediction'])
        m, s = A['ids_to_tracks'], E.get(A['step_config'], 'measurement_step')
        d, v = im(E, M, m)
        return M, V, (lambda q: d(V.J(q), m, s)), (lambda q: v(V.J(q), m, s))

    def req(E, A):
        M, V, d, v = parts(E, A)
        return V.pre(A['ids_to_tracks']) + [inr(E.get(A['step_config'], 'measurement_step'), M.nsteps())]

    def inv(E, L):
        M, V, d, v = parts(E, E.A)
        mp = M.f('max_predictions')
        return [('no match so far', forall([j], Implies(And(inr(j, L.k), d(j)), Not(v(j))), [V.J(j)])), ('count', L.v('count') == L.k), ('not yet enough', Implies(mp >= 1, L.k < mp)), ('some decided', L.v('has_valid_measurements') == Not(forall([j], Implies(inr(j, L.k), Not(d(j))), [V.J(j)]))), ('nothing added', L.v('result') == E.A['result'])]

    def ens(E, A, r, p):
        M, V, d, v = parts(E, A)
        n = V.K()
        old, new = A['result'], p['result']
        none = forall([j], Implies(inr(j, n), Not(d(j))), [V.J(j)])
        allmiss = forall([j], Implies(And(inr(j, n), d(j)), Not(v(j))), [V.J(j)])
        add = lambda y: And(E.get(new, 'total') == E.get(old, 'total') + y, E.get(new, 'num_measurements') == E.get(old, 'num_measurements') + 1)
        return [('succeeds', OK(E, r)), ('nothing is added when nothing is decided', Implies(none, new == old)), ('a match: no miss', Implies(Not(allmiss), add(R(0)))), ('every evaluated prediction misses: one miss', Implies(And(allmiss, Not(none)), add(R(1))))]
    S.fn(ANON + 'ComputeMissRate', callees=match_contract, requires=req, loops={0: inv}, ensures=ens)


GN = NS + 'GetNormalizedConfidences'


def conf(E, P, q):
    return E.get(E.at(E.get(P, 'joint_predictions'), q), 'confidence')


def confidences(S):
    def total(E, P):
        s = E.func('spec_sum of confidences', z3.IntSort(), z3.RealSort())
        v = E.get(P, 'joint_predictions')
        return s, [s(I0) == 0, forall([k], Implies(k >= 0, s(k + 1) == s(k) + conf(E, P, k)), [s(k + 1), z3.MultiPattern(s(k), E.at(v, k))])]

    def nonneg(E, P):
        return forall([k], conf(E, P, k) >= 0, [E.at(E.get(P, 'joint_predictions'), k)])

    def l0(E, L):
        P = E.A['prediction']
        s, _ = total(E, P)
        n, v = L.v('i'), L.v('result')
        return [('copied so far', And(E.len(v) == E.len(E.get(P, 'joint_predictions')), forall([k], Implies(inr(k, n), E.at(v, k) == conf(E, P, k)), [E.at(v, k)]))), ('sum so far', L.v('sum') == s(n)),
                ('a zero sum is a sum of zeros', And(s(n) >= 0, (s(n) == 0) == forall([k], Implies(inr(k, n), conf(E, P, k) == 0), [E.at(E.get(P, 'joint_predictions'), k)])))]

    def final(E, P, k, n):
        s, _ = total(E, P)
        return If(s(n) == 0, R(1) / z3.ToReal(n), conf(E, P, k) / s(n))

    def l1(E, L):
        P = E.A['prediction']
        v, q = L.v('result'), E.len(E.get(P, 'joint_predictions'))
        return [('normalised so far', And(E.len(v) == q, forall([k], Implies(inr(k, q), E.at(v, k) == If(k < L.v('i'), final(E, P, k, q), conf(E, P, k))), [E.at(v, k)])))]

    def ens(E, A, r, p):
        P = A['prediction']
        s, _ = total(E, P)
        n = E.len(E.get(P, 'joint_predictions'))
        return [('one per joint prediction', E.len(r) == n),
                ('confidence over the sum of the confidences', forall([k], Implies(inr(k, n), Implies(s(n) != 0, E.at(r, k) * s(n) == conf(E, P, k))), [E.at(r, k)])),
                ('all equal when every confidence is zero', forall([k], Implies(And(inr(k, n), s(n) == 0), E.at(r, k) * z3.ToReal(n) == 1), [E.at(r, k)])),
                ('non-negative', forall([k], Implies(inr(k, n), E.at(r, k) >= 0), [E.at(r, k)])), ('order preserved', forall([j, k], Implies(And(inr(j, n), inr(k, n)), (E.at(r, j) <= E.at(r, k)) == (conf(E, P, j) <= conf(E, P, k))), [z3.MultiPattern(E.at(r, j), E.at(r, k))]))]
    S.fn(GN, requires=lambda E, A: [nonneg(E, A['prediction'])] + total(E, A['prediction'])[1], loops={0: l0, 1: l1}, ensures=ens)
    a, b, c = z3.Reals('a b c')
    S.lemma('dividing by a positive sum preserves the order', [c > 0], (a / c <= b / c) == (a <= b))


PP, SP = NS + 'PredictionToPolygon', NS + 'StateToPolygon'
MH, CA = NS + 'Polygon2d::MaybeHasIntersectionWith', NS + 'Polygon2d::ComputeIntersectionArea'


def overlap(S):
    def funcs(E):
        M = Mo(E)
        pg = E.sort(NS + 'Polygon2d')
        st = E.sort(NS + 'ObjectState')
        return (E.func('spec_predicted box', M.tr_s, M.I, M.T_s, pg), E.func('spec_true box', st, pg), E.func('spec_may overlap', pg, pg, M.B), E.func('spec_overlap area', pg, pg, M.R))

    def callees(E):
        pp, sp, mh, ar = funcs(E)
        M = Mo(E)
        c = get_track(E)
        c.update(step_contract(E))
        c[PP] = Contract(PP, args=('config', 'trajectory', 'step', 'track', 'flag'), requires=lambda A: [('sizes', M.sizes(A['trajectory'], A['track'])), ('step', inr(A['step'], M.nsteps())), ('dimensions of the true state at the step', Not(A['flag']))], ensures=lambda A, r, p: [r == pp(A['trajectory'], A['step'], A['track'])])
        c[SP] = Contract(SP, ensures=lambda A, r, p: [r == sp(A[0])])
        c[MH] = Contract(MH, ensures=lambda A, r, p: [r == mh(A['this'], A[0])])
        c[CA] = Contract(CA, ensures=lambda A, r, p: [r == ar(A['this'], A[0])])
        c[GN] = Contract(GN, ensures=lambda A, r, p: [E.len(r) == E.len(E.get(A[0], 'joint_predictions')), forall([k], Implies(inr(k, E.len(r)), E.at(r, k) >= 0), [E.at(r, k), E.at(E.get(A[0], 'joint_predictions'), k)]),
            forall([j, k], Implies(And(inr(j, E.len(r)), inr(k, E.len(r))), (E.at(r, j) <= E.at(r, k)) == (conf(E, A[0], j) <= conf(E, A[0], k))), [z3.MultiPattern(E.at(r, j), E.at(r, k))])])
        return c

    class Ov:
        def __init__(self, E, A):
            self.E, self.A = E, A
            self.M = Mo(E, A['config'])
            self.P, self.m, self.last = A['prediction'], A['ids_to_tracks'], A['last_trajectory_step']
            self.tr = E.get(A['scenario'], 'tracks')
            self.best = z3.Int('spec!most confident')
            self.J = E.at(E.get(self.P, 'joint_predictions'), self.best)
            self.cnt = E.func('spec_valid tracks before', self.M.I, self.M.I)

        def T(self, q):
            return self.E.at(self.tr, q)

        def cur(self, q):
            E = self.E
            return E.get(E.at(E.get(self.T(q), 'states'), self.M.f('track_history_samples')), 'valid')

        def pt(self, q):
            return self.M.trk(self.m, self.M.ids(self.J, q))

        def hit(self, q, s, t):
            """object t is hit by predicted object q at step s"""
            E, M = self.E, self.M
            pp, sp, mh, ar = funcs(E)
            a, b = pp(M.traj(self.J, q), s, self.pt(q)), sp(M.truth(self.T(t), s))
            return And(self.cur(t), E.get(self.T(t), 'id') != E.get(self.pt(q), 'id'), M.valid(self.T(t), s), mh(a, b), ar(a, b) > 0)

        def none(self, upto, s=None, t=None, lst=None):
            """no hit before position (upto, s, t)"""
            E, M = self.E, self.M
            b = inr(i, upto)
            if s is not None:
                b = Or(b, And(i == upto, inr(j, s)))
            if t is not None:
                b = Or(b, And(i == upto, j == s, self.cnt(k) < t))
            return forall([i, j, k], Implies(And(i >= 0, b, j >= 0, j <= self.last, inr(k, E.len(self.tr))), Not(self.hit(i, j, k))), [z3.MultiPattern(M.traj(self.J, i), M.truth(self.T(k), j))])

        def defs(self):
            E, M = self.E, self.M
            v = E.get(self.P, 'joint_predictions')
            n = E.len(v)
            mp = M.f('max_predictions')
            K = If(mp < n, mp, n)
            c = lambda q: conf(E, self.P, q)
            return [mp >= 1, n >= 1, inr(self.best, K), forall([k], Implies(inr(k, K), And(c(k) <= c(self.best), Implies(k < self.best, c(k) < c(self.best)))), [E.at(v, k)]),
                    self.cnt(I0) == 0, forall([k], Implies(k >= 0, self.cnt(k + 1) == self.cnt(k) + If(self.cur(k), z3.IntVal(1), I0)), [self.cnt(k + 1), z3.MultiPattern(self.cnt(k), self.T(k))])]

    def req(E, A):
        o = Ov(E, A)
        M = o.M
        h = M.f('track_history_samples')
        return o.defs() + M.mapping() + [M.known(o.J, o.m), M.shaped(o.J, o.m), inr(o.last, M.nsteps()), h >= 0, h < M.nstates(), forall([k], Implies(inr(k, E.len(o.tr)), E.len(E.get(o.T(k), 'states')) == M.nstates()), [o.T(k)])]

    def lst(E, L, n):
        o = Ov(E, E.A)
        t = L.v('tracks_to_test_indices')
        return [('as many as valid tracks', And(E.len(t) == o.cnt(n), o.cnt(n) >= 0)), ('the valid tracks', forall([k], Implies(And(inr(k, n), o.cur(k)), And(inr(o.cnt(k), o.cnt(n)), E.at(t, o.cnt(k)) == k)), [o.T(k)])),
                ('only valid tracks', forall([k], Implies(inr(k, E.len(t)), And(inr(E.at(t, k), n), o.cur(E.at(t, k)), o.cnt(E.at(t, k)) == k)), [E.at(t, k)]))]

    def l0(E, L):
        return lst(E, L, L.v('i'))

    def l1(E, L):
        return [('the most confident one', L.v('max_index') == z3.Int('spec!most confident')), ('no overlap so far', Ov(E, E.A).none(L.k)), ('nothing added', L.v('result') == E.A['result'])]

    def l2(E, L):
        return [('the most confident one', L.v('max_index') == z3.Int('spec!most confident')), ('no overlap so far', Ov(E, E.A).none(L.outer[-1], L.v('step'))), ('nothing added', L.v('result') == E.A['result']), ('step', And(L.v('step') >= 0, L.v('step') <= Ov(E, E.A).last + 1))]

    def l3(E, L):
        o = Ov(E, E.A)
        return [('the most confident one', L.v('max_index') == o.best), ('no overlap so far', o.none(L.outer[-1], L.v('step'), L.k)), ('nothing added', L.v('result') == E.A['result'])]

    def ens(E, A, r, p):
        o = Ov(E, A)
        old, new = A['result'], p['result']
        none = o.none(o.M.ntr(o.J))
        add = lambda y: And(E.get(new, 'total') == E.get(old, 'total') + y, E.get(new, 'num_measurements') == E.get(old, 'num_measurements') + 1)
        return [('succeeds', OK(E, r)), ('no overlap of the most confident prediction: 0', Implies(none, add(R(0)))), ('some overlap: 1', Implies(Not(none), add(R(1))))]
    S.fn(ANON + 'ComputeOverlapRate', callees=callees, requires=req, loops={0: l0, 1: l1, 2: l2, 3: l3}, ensures=ens)


GS = ANON + 'GetSortedTrajectoryIndices'


def sorting(S):
    def inv(E, L):
        v, n = L.v('result'), L.v('i')
        return [('counted so far', And(E.len(v) == L.v('num_predictions'), n >= 0, n <= E.len(v), forall([k], Implies(inr(k, n), E.at(v, k) == k), [E.at(v, k)])))]

    def ens(E, A, r, p):
        P = A['prediction']
        n, mp = E.len(E.get(P, 'joint_predictions')), E.get(A['config'], 'max_predictions')
        return [('as many as are evaluated', E.len(r) == If(mp < n, mp, n)), ('evaluated predictions', forall([k], Implies(inr(k, E.len(r)), inr(E.at(r, k), E.len(r))), [E.at(r, k)])),
                ('each once', forall([j, k], Implies(And(inr(j, E.len(r)), inr(k, E.len(r)), j != k), E.at(r, j) != E.at(r, k)), [z3.MultiPattern(E.at(r, j), E.at(r, k))])),
                ('most confident first', forall([j, k], Implies(And(j >= 0, j < k, k < E.len(r)), conf(E, P, E.at(r, j)) >= conf(E, P, E.at(r, k))), [z3.MultiPattern(E.at(r, j), E.at(r, k))]))]
    S.fn(GS, requires=lambda E, A: [E.get(A['config'], 'max_predictions') >= 1], loops={0: inv}, ensures=ens)


def precision_recall(S):
    """the precision-recall curve of sorted samples and the area under its interpolation"""
    def fs(E):
        s = E.sort(NS + 'PredictionStats')
        v = z3.Const('spec!samples', E.get(z3.Const('spec!st', s), 'samples').sort())
        I, Rr = z3.IntSort(), z3.RealSort()
        tp, m, ar = E.func('spec_true positives', v.sort(), I, I), E.func('spec_interpolated precision', v.sort(), I, Rr), E.func('spec_area', v.sort(), I, I, Rr)
        return v, tp, m, ar

    def pr(v):
        return z3.Function('spec_precision', v.sort(), z3.IntSort(), z3.RealSort()), z3.Function('spec_recall', v.sort(), z3.IntSort(), z3.IntSort(), z3.RealSort())

    def prec(tp, v, q):
        return pr(v)[0](v, q)

    def rec(tp, v, q, N):
        return pr(v)[1](v, N, q)

    def defs(E):
        """precision: true positives over samples; recall: true positives over ground truth"""
        v, tp, m, ar = fs(E)
        N = z3.Int('spec!N')
        return [forall([v, k], prec(tp, v, k) == z3.ToReal(tp(v, k + 1)) / z3.ToReal(k + 1), [prec(tp, v, k)]), forall([v, N, k], rec(tp, v, k, N) == z3.ToReal(tp(v, k + 1)) / z3.ToReal(N), [rec(tp, v, k, N)])]

    def ax(E, N=None):
        v, tp, m, ar = fs(E)
        n = E.len(v)
        r = [forall([v], tp(v, I0) == 0, [tp(v, I0)]), forall([v, k], Implies(k >= 0, tp(v, k + 1) == tp(v, k) + If(E.get(E.at(v, k), 'true_positive'), z3.IntVal(1), I0)), [tp(v, k + 1), z3.MultiPattern(tp(v, k), E.at(v, k))])]
        if N is not None:
            r += [forall([v, k], Implies(k == n - 1, And(m(v, k) == prec(tp, v, k), ar(v, N, k) == 0)), [m(v, k)]),
                  forall([v, k], Implies(inr(k, n - 1), And(m(v, k) == If(prec(tp, v, k) > m(v, k + 1), prec(tp, v, k), m(v, k + 1)), ar(v, N, k) == ar(v, N, k + 1) + m(v, k + 1) * (rec(tp, v, k + 1, N) - rec(tp, v, k, N)))), [m(v, k), m(v, k + 1)])]
        return r

    def sorted_(E, v):
        x, y = E.at(v, j), E.at(v, k)
        c = lambda w: E.get(w, 'confidence')
        t = lambda w: E.get(w, 'true_positive')
        return [('most confident first', forall([j, k], Implies(And(j >= 0, j < k, k < E.len(v)), c(x) >= c(y)), [z3.MultiPattern(x, y)])),
                ('false positives first among equals', forall([j, k], Implies(And(j >= 0, j < k, k < E.len(v), c(x) == c(y), t(x)), t(y)), [z3.MultiPattern(x, y)]))]

    S.fn(NS + 'SortSamples', ensures=lambda E, A, r, p: [('as many', E.len(p['samples_ptr']) == E.len(A['samples_ptr']))] + sorted_(E, p['samples_ptr']))
    SS, PC, AP = NS + 'SortSamples', NS + 'ComputePrCurve', NS + 'ComputeMeanAveragePrecision'

    def curve(E, v, N, r, n):
        _, tp, m, ar = fs(E)
        return [('cumulative precision', forall([k], Implies(inr(k, n), E.get(E.at(r, k), 'precision') == prec(tp, v, k)), [E.at(r, k)])),
                ('cumulative recall', forall([k], Implies(inr(k, n), E.get(E.at(r, k), 'recall') == rec(tp, v, k, N)), [E.at(r, k)]))]

    def sort_c(E):
        st = E.func('spec_sorted', fs(E)[0].sort(), fs(E)[0].sort())
        return {SS: Contract(SS, args=('samples_ptr',), modifies=('samples_ptr',), ensures=lambda A, r, p: [E.len(p['samples_ptr']) == E.len(A['samples_ptr']), p['samples_ptr'] == st(A['samples_ptr'])] + [f for _, f in sorted_(E, p['samples_ptr'])])}

    def inv(E, L):
        _, tp, m, ar = fs(E)
        n, v = L.v('i'), L.v('samples')
        st = E.func('spec_sorted', v.sort(), v.sort())
        v0 = E.A['prediction_samples']
        return [('sorted', v == st(v0)), ('true positives so far', L.v('true_positives') == tp(v, n)), ('as many', And(E.len(L.v('result')) == E.len(v0), E.len(v) == E.len(v0)))] + curve(E, v, E.A['total_gt_count'], L.v('result'), n)

    def ens(E, A, r, p):
        v0 = A['prediction_samples']
        v = p['prediction_samples']
        return [('one point per sample', E.len(r) == E.len(v0)), ('the samples are sorted', v == E.func('spec_sorted', v0.sort(), v0.sort())(v0))] + curve(E, v, A['total_gt_count'], r, E.len(v0)) + sorted_(E, v)
    S.fn(PC, callees=sort_c, requires=lambda E, A: ax(E) + defs(E) + [A['total_gt_count'] >= 1], loops={0: inv}, ensures=ens)

    # the area
    def pc_c(E):
        st = E.func('spec_sorted', fs(E)[0].sort(), fs(E)[0].sort())
        return {PC: Contract(PC, args=('prediction_samples', 'total_gt_count'), modifies=('prediction_samples',), requires=lambda A: [('some ground truth', A['total_gt_count'] >= 1)], ensures=lambda A, r, p: [
            E.len(r) == E.len(A['prediction_samples']), E.len(p['prediction_samples']) == E.len(A['prediction_samples']), p['prediction_samples'] == st(A['prediction_samples'])] + [f for _, f in curve(E, st(A['prediction_samples']), A['total_gt_count'], r, E.len(r))])}

    def parts(E, A):
        _, tp, m, ar = fs(E)
        v0 = E.get(A['prediction_samples'], 'samples')
        v = E.func('spec_sorted', v0.sort(), v0.sort())(v0)
        N = E.get(A['prediction_samples'], 'num_trajectories')
        return v0, v, N, tp, m, ar

    def mreq(E, A):
        v0, v, N, tp, m, ar = parts(E, A)
        n = E.len(v0)
        return ax(E, N) + [E.len(v) == n, Implies(n > 0, N >= 1), tp(v, n) <= N,
            # consequences of the definitions of precision and recall (the lemmas below) when the true positives do not exceed the ground truth
            forall([k], Implies(inr(k, n), And(prec(tp, v, k) >= 0, prec(tp, v, k) <= 1)), [prec(tp, v, k)]), forall([k], Implies(inr(k, n), And(rec(tp, v, k, N) >= 0, rec(tp, v, k, N) <= 1)), [rec(tp, v, k, N)]),
            forall([k], Implies(And(k >= 0, k + 1 < n), rec(tp, v, k, N) <= rec(tp, v, k + 1, N)), [rec(tp, v, k, N)])]

    def minv(E, L):
        v0, v, N, tp, m, ar = parts(E, E.A)
        n = E.len(v0)
        c = L.v('pr_curve')
        h = L.v('highest')
        q = L.v('i')
        jj = If(q + 1 < n, q + 1, n - 1)
        last = rec(tp, v, n - 1, N)
        return [('index', And(q >= -1, q <= n - 1)), ('sorted', E.len(c) == n), ('highest precision to the right', E.get(h, 'precision') == m(v, jj)), ('its recall', And(E.get(h, 'recall') >= rec(tp, v, jj, N), E.get(h, 'recall') <= last)),
                ('area to the right', L.v('total_area') + E.get(h, 'precision') * (E.get(h, 'recall') - rec(tp, v, jj, N)) == ar(v, N, jj)),
                ('precision between 0 and 1', And(m(v, jj) >= 0, m(v, jj) <= 1)), ('area below the recall', And(ar(v, N, jj) >= 0, ar(v, N, jj) <= last - rec(tp, v, jj, N)))]

    def mens(E, A, r, p):
        v0, v, N, tp, m, ar = parts(E, A)
        n = E.len(v0)
        return [('no sample: 0', Implies(n == 0, r == 0)), ('area under the interpolated precision-recall curve', Implies(n > 0, r == ar(v, N, I0) + m(v, I0) * rec(tp, v, I0, N))),
                ('between 0 and 1', And(r >= 0, r <= 1))]
    S.fn(AP, nparams=1, label='ComputeMeanAveragePrecision (area)', callees=pc_c, requires=mreq, loops={0: minv}, ensures=mens)
    a, b, m_, p_, t_, h_, r1, r0 = z3.Reals('a b m p t h r1 r0')
    c0, c1, q_, N_ = z3.Ints('c0 c1 q N')
    tr = z3.ToReal
    S.lemma('true positives never exceed the samples (step)', [c0 >= 0, c0 <= q_, Or(c1 == c0, c1 == c0 + 1)], And(c1 >= 0, c1 <= q_ + 1, c1 >= c0))
    S.lemma('precision lies in [0, 1]', [q_ >= 0, c1 >= 0, c1 <= q_ + 1], And(tr(c1) / tr(q_ + 1) >= 0, tr(c1) / tr(q_ + 1) <= 1))
    S.lemma('recall lies in [0, 1]', [N_ >= 1, c1 >= 0, c1 <= N_], And(tr(c1) / tr(N_) >= 0, tr(c1) / tr(N_) <= 1))
    S.lemma('recall never decreases', [N_ >= 1, c0 >= 0, c1 >= c0], tr(c0) / tr(N_) <= tr(c1) / tr(N_))
    S.lemma('extending the area by one sample', [t_ + p_ * (h_ - r1) == a, b == a + p_ * (r1 - r0)], t_ + p_ * (h_ - r0) == b)

    # the mean over the buckets
    CM = NS + 'ComputeMapMetric'

    def ap_c(E):
        s = E.sort(NS + 'PredictionStats')
        f = E.func('spec_average precision', s, z3.RealSort())
        return {AP: Contract(AP, args=('prediction_samples',), modifies=('prediction_samples',), ensures=lambda A, r, p: [r == f(A['prediction_samples']), r >= 0, r <= 1,
            E.len(E.get(p['prediction_samples'], 'samples')) == E.len(E.get(A['prediction_samples'], 'samples'))])}

    def tot(E, v):
        f = E.func('spec_average precision', E.sort(NS + 'PredictionStats'), z3.RealSort())
        t, c = E.func('spec_sum of average precisions', z3.IntSort(), z3.RealSort()), E.func('spec_buckets with samples', z3.IntSort(), z3.IntSort())
        ne = E.len(E.get(E.at(v, k), 'samples')) > 0
        return t, c, [t(I0) == 0, c(I0) == 0, forall([k], Implies(k >= 0, And(t(k + 1) == t(k) + If(ne, f(E.at(v, k)), R(0)), c(k + 1) == c(k) + If(ne, z3.IntVal(1), I0))), [t(k + 1), c(k + 1), z3.MultiPattern(t(k), E.at(v, k))])]

    def cinv(E, L):
        v = E.get(E.A['stats'], 'pr_buckets')
        t, c, _ = tot(E, v)
        n = L.k
        cur = E.get(L.v('stats'), 'pr_buckets')
        return [('sum so far', L.v('total') == t(n)), ('buckets so far', And(L.v('count') == c(n), c(n) >= 0)), ('the rest is untouched', And(E.len(cur) == E.len(v), forall([k], Implies(And(k >= n, k < E.len(v)), E.at(cur, k) == E.at(v, k)), [E.at(cur, k)]))),
                ('bounds', And(t(n) >= 0, t(n) <= z3.ToReal(c(n))))]

    def cens(E, A, r, p):
        v = E.get(A['stats'], 'pr_buckets')
        t, c, _ = tot(E, v)
        n = E.len(v)
        return [('no bucket with samples: 0', Implies(c(n) == 0, r == 0)), ('mean over the buckets with samples', Implies(c(n) != 0, r * z3.ToReal(c(n)) == t(n))), ('between 0 and 1', And(r >= 0, r <= 1))]
    S.fn(CM, callees=ap_c, requires=lambda E, A: tot(E, E.get(A['stats'], 'pr_buckets'))[2], loops={0: cinv}, ensures=cens)


def accumulate(S):
    f = lambda E, p, n: E.get(p, n)
    S.fn(NS + 'Accumulator::Add', ensures=lambda E, A, r, p: [('sum', f(E, p['this'], 'total') == f(E, A['this'], 'total') + A['value']), ('count', f(E, p['this'], 'num_measurements') == f(E, A['this'], 'num_measurements') + 1)])
    S.fn(NS + 'Accumulator::Accumulate', ensures=lambda E, A, r, p: [(n, f(E, p['this'], n) == f(E, A['this'], n) + f(E, A['other'], n)) for n in ('total', 'num_measurements')])
    S.fn(NS + 'Accumulator::Mean', requires=lambda E, A: [f(E, A['this'], 'num_measurements') >= 0], ensures=lambda E, A, r, p: [
        ('0 without measurements', Implies(f(E, A['this'], 'num_measurements') == 0, r == 0)), ('mean', Implies(f(E, A['this'], 'num_measurements') > 0, r * z3.ToReal(f(E, A['this'], 'num_measurements')) == f(E, A['this'], 'total')))])

    def concat(E, a, b, c):
        """c = a ++ b"""
        return And(E.len(c) == E.len(a) + E.len(b), forall([k], Implies(inr(k, E.len(a)), E.at(c, k) == E.at(a, k)), [E.at(c, k), E.at(a, k)]), forall([k], Implies(And(k >= E.len(a), k < E.len(c)), E.at(c, k) == E.at(b, k - E.len(a))), [E.at(c, k)]))

    def pens(E, A, r, p):
        a, b, c = A['this'], A['prediction_stats'], p['this']
        return [('the samples of both', concat(E, f(E, a, 'samples'), f(E, b, 'samples'), f(E, c, 'samples'))), ('ground truth of both', f(E, c, 'num_trajectories') == f(E, a, 'num_trajectories') + f(E, b, 'num_trajectories'))]
    PA = NS + 'PredictionStats::Accumulate'
    S.fn(PA, ensures=pens)

    def acc_c(E):
        return {PA: Contract(PA, args=('prediction_stats',), modifies=('this',), ensures=lambda A, r, p: [g_ for _, g_ in pens(E, dict(this=A['this'], prediction_stats=A['prediction_stats']), r, p)])}

    def bucket(E, a, b, c, q):
        x, y, z = E.at(a, q), E.at(b, q), E.at(c, q)
        return And(concat(E, f(E, x, 'samples'), f(E, y, 'samples'), f(E, z, 'samples')), f(E, z, 'num_trajectories') == f(E, x, 'num_trajectories') + f(E, y, 'num_trajectories'))

    def minv(E, L):
        a, b, c = f(E, E.A['this'], 'pr_buckets'), f(E, E.A['mean_ap_stats'], 'pr_buckets'), f(E, L.v('this'), 'pr_buckets')
        n = E.len(b)
        q = z3.Int('spec!any bucket')
        return [('buckets', E.len(c) == n), ('index', And(L.v('i') >= 0, L.v('i') <= n)), ('an accumulated bucket has the samples of both', Implies(And(inr(q, L.v('i')), E.len(a) == n), bucket(E, a, b, c, q))),
                ('a new bucket is the other one', Implies(And(inr(q, L.v('i')), E.len(a) == 0), same(E, b, c, q))),
                ('a later bucket is untouched', Implies(And(q >= L.v('i'), q < n), If(E.len(a) == n, E.at(c, q) == E.at(a, q), And(E.len(f(E, E.at(c, q), 'samples')) == 0, f(E, E.at(c, q), 'num_trajectories') == 0))))]

    def same(E, b, c, q):
        y, z = f(E, E.at(b, q), 'samples'), f(E, E.at(c, q), 'samples')
        return And(E.len(z) == E.len(y), forall([k], Implies(inr(k, E.len(y)), E.at(z, k) == E.at(y, k)), [E.at(z, k)]), f(E, E.at(b, q), 'num_trajectories') == f(E, E.at(c, q), 'num_trajectories'))

    def mens(E, A, r, p):
        a, b, c = f(E, A['this'], 'pr_buckets'), f(E, A['mean_ap_stats'], 'pr_buckets'), f(E, p['this'], 'pr_buckets')
        q = z3.Int('spec!any bucket')
        n = E.len(b)
        return [('nothing to add', Implies(n == 0, c == a)), ('buckets', Implies(n > 0, E.len(c) == n)), ('each bucket has the samples of both', Implies(And(inr(q, n), E.len(a) == n), bucket(E, a, b, c, q))), ('into empty statistics: a copy', Implies(And(inr(q, n), E.len(a) == 0), same(E, b, c, q)))]
    S.fn(NS + 'MeanAveragePrecisionStats::Accumulate', callees=acc_c, requires=lambda E, A: [Or(E.len(f(E, A['this'], 'pr_buckets')) == 0, E.len(f(E, A['mean_ap_stats'], 'pr_buckets')) == 0, E.len(f(E, A['this'], 'pr_buckets')) == E.len(f(E, A['mean_ap_stats'], 'pr_buckets'))),
        forall([k], E.len(f(E, E.at(f(E, A['this'], 'pr_buckets'), k), 'samples')) >= 0, [E.at(f(E, A['this'], 'pr_buckets'), k)]), forall([k], E.len(f(E, E.at(f(E, A['mean_ap_stats'], 'pr_buckets'), k), 'samples')) >= 0, [E.at(f(E, A['mean_ap_stats'], 'pr_buckets'), k)])], loops={0: minv}, ensures=mens)


BOXC, BFP, AVG = NS + 'Box2d::GetCornersInVectorCounterClockwise', NS + 'Polygon2d::BuildFromPoints', NS + 'AverageAngle'


def polygons(S):
    """predicted and true boxes"""
    def fs(E):
        Rr = z3.RealSort()
        pts = E.get(z3.Const('spec!pg', E.sort(NS + 'Polygon2d')), 'points_').sort()
        return E.func('spec_corners of the box with axis and width', Rr, Rr, Rr, Rr, Rr, pts), E.func('cos', Rr, Rr), E.func('sin', Rr, Rr), E.func('atan2', Rr, Rr, Rr), E.func('spec_average angle', Rr, Rr, Rr)

    def xy(E, v):
        w = E.get(v, 'xy_')
        return E.at(w, 0), E.at(w, 1)

    def callees(E):
        f, co, si, at2, avg = fs(E)

        def corners(A, r, p):
            s = E.get(A['this'], 'axis_')
            return [p['corners'] == f(*xy(E, E.get(s, 'start_')), *xy(E, E.get(s, 'end_')), E.get(A['this'], 'width_')), E.len(p['corners']) == 4]
        return {BOXC: Contract(BOXC, args=('corners',), modifies=('corners',), ensures=corners),
                BFP: Contract(BFP, modifies=('this',), requires=lambda A: [('points', E.len(E.get(A['this'], 'points_')) > 2)], ensures=lambda A, r, p: [E.get(p['this'], 'points_') == E.get(A['this'], 'points_')]),
                AVG: Contract(AVG, args=('a', 'b'), ensures=lambda A, r, p: [r == avg(A['a'], A['b'])])}

    def is_box(E, r, cx, cy, h, l, w):
        f, co, si, _, _ = fs(E)
        c, s = co(h), si(h)
        return E.get(r, 'points_') == f(cx - c * l / 2, cy - s * l / 2, cx + c * l / 2, cy + s * l / 2, w)

    def st(E, A, r, p):
        q = A['state']
        v = lambda n: E.get(q, n)
        return [('box of the state: centre, heading, length, width', is_box(E, r, v('center_x'), v('center_y'), v('heading'), v('length'), v('width')))]
    S.fn(SP, callees=callees, ensures=st)

    def pt(E, A, r, p):
        M = Mo(E, A['config'])
        f, co, si, at2, avg = fs(E)
        tr, s = A['trajectory'], A['trajectory_step']
        X, Y = E.get(tr, 'center_x'), E.get(tr, 'center_y')
        n = E.len(X)
        ang = lambda a, b: at2(E.at(Y, b) - E.at(Y, a), E.at(X, b) - E.at(X, a))
        q = E.at(E.get(A['track'], 'states'), If(A['use_current_box_dimensions'], M.f('track_history_samples'), M.step(s)))
        b = lambda h: is_box(E, r, E.at(X, s), E.at(Y, s), h, E.get(q, 'length'), E.get(q, 'width'))
        return [('one position has no heading: no box', Implies(n < 2, E.len(E.get(r, 'points_')) == 0)), ('first step: heads to the next position', Implies(And(n >= 2, s == 0), b(ang(I0, z3.IntVal(1))))),
                ('last step: heads from the previous position', Implies(And(n >= 2, s > 0, s == n - 1), b(ang(s - 1, s)))),
                ('otherwise: mean heading of the two', Implies(And(n >= 2, s > 0, s < n - 1), b(avg(ang(s, s + 1), ang(s - 1, s)))))]

    def preq(E, A):
        M = Mo(E, A['config'])
        tr, s = A['trajectory'], A['trajectory_step']
        n, ns = E.len(E.get(tr, 'center_x')), E.len(E.get(A['track'], 'states'))
        return [E.len(E.get(tr, 'center_y')) == n, inr(s, n), inr(M.step(s), ns), inr(M.f('track_history_samples'), ns)]

    def pc(E):
        c = callees(E)
        c.update(step_contract(E))
        return c
    S.fn(PP, callees=pc, requires=preq, ensures=pt)
    S.fn(AVG, ensures=lambda E, A, r, p: [('direction of the sum of the unit vectors', r == fs(E)[3](fs(E)[2](A['angle_1_rad']) + fs(E)[2](A['angle_2_rad']), fs(E)[1](A['angle_1_rad']) + fs(E)[1](A['angle_2_rad'])))])


CT = NS + 'ClassifyTrack'
NA = NS + 'NormalizeAngle'


def classify(S):
    from spec import dbl
    T = dict(STATIONARY=0, STRAIGHT=1, STRAIGHT_LEFT=2, STRAIGHT_RIGHT=3, LEFT_U_TURN=4, LEFT_TURN=5, RIGHT_U_TURN=6, RIGHT_TURN=7)

    def callees(E):
        f = E.func('spec_normalized angle', z3.RealSort(), z3.RealSort())
        return {NA: Contract(NA, args=('a',), ensures=lambda A, r, p: [r == f(A['a'])])}

    def inv(E, L):
        v, i_ = E.get(E.A['track'], 'states'), L.v('i')
        return [('none valid so far', And(L.v('last_valid_index') == -1, i_ < E.len(v), i_ >= E.A['prediction_step'] - E.len(v) - 1, i_ >= If(E.A['prediction_step'] < E.len(v), E.A['prediction_step'], E.len(v) - 1))), ('all later states are invalid', forall([k], Implies(And(k > i_, k < E.len(v)), Not(E.get(E.at(v, k), 'valid'))), [E.at(v, k)]))]

    def ens(E, A, r, p):
        v, s = E.get(A['track'], 'states'), A['prediction_step']
        n = E.len(v)
        last = z3.Int('spec!last valid state')
        ok = lambda q: E.get(E.at(v, q), 'valid')
        is_last = And(last > s, last < n, ok(last), forall([k], Implies(And(k > last, k < n), Not(ok(k))), [E.at(v, k)]))
        none = forall([k], Implies(And(k > s, k < n), Not(ok(k))), [E.at(v, k)])
        a, b = E.at(v, s), E.at(v, last)
        f = lambda st, q: E.get(st, q)
        dx, dy = f(b, 'center_x') - f(a, 'center_x'), f(b, 'center_y') - f(a, 'center_y')
        co, si = E.func('cos', z3.RealSort(), z3.RealSort()), E.func('sin', z3.RealSort(), z3.RealSort())
        h = -f(a, 'heading')
        M = E.mul
        lon, lat = M(co(h), dx) - M(si(h), dy), M(si(h), dx) + M(co(h), dy)
        turn = E.func('spec_normalized angle', z3.RealSort(), z3.RealSort())(f(b, 'heading') - f(a, 'heading'))
        v0, v1 = [sqrt(E, M(f(q, 'velocity_x'), f(q, 'velocity_x')) + M(f(q, 'velocity_y'), f(q, 'velocity_y'))) for q in (a, b)]
        dist = sqrt(E, M(dx, dx) + M(dy, dy))
        stat = And(v0 < 2, v1 < 2, dist < 3)
        straight = absr(turn) < dbl(math.pi / 6, 32)
        is_ = lambda c, t: Implies(And(is_last, ok(s), c), And(E.get(r, 'has'), E.get(r, 'val') == T[t]))
        m = And(Not(stat), straight)
        w = And(Not(stat), Not(straight))
        return [('undefined without a later valid state', Implies(none, Not(E.get(r, 'has')))), ('undefined without a valid current state', Implies(Not(ok(s)), Not(E.get(r, 'has')))),
                ('stationary: slower than 2 m/s at both ends and less than 3 m', is_(stat, 'STATIONARY')), ('straight: turns less than 30 degrees and drifts less than 2.5 m', is_(And(m, absr(lat) < 2.5), 'STRAIGHT')),
                ('straight right', is_(And(m, absr(lat) >= 2.5, lat < 0), 'STRAIGHT_RIGHT')), ('straight left', is_(And(m, absr(lat) >= 2.5, lat >= 0), 'STRAIGHT_LEFT')),
                ('right u-turn', is_(And(w, lat < 0, lon < 0), 'RIGHT_U_TURN')), ('right turn', is_(And(w, lat < 0, lon >= 0), 'RIGHT_TURN')),
                ('left u-turn', is_(And(w, lat >= 0, lon < 0), 'LEFT_U_TURN')), ('left turn', is_(And(w, lat >= 0, lon >= 0), 'LEFT_TURN'))]
    S.fn(CT, callees=callees, requires=lambda E, A: [inr(A['prediction_step'], E.len(E.get(A['track'], 'states')))], loops={0: inv}, ensures=ens, opts=dict(ufmul=True))


TPRI, OPRI = ANON + 'GetTrajectoryTypePriority', ANON + 'GetObjectTypePriority'
# a joint prediction takes the rarest motion or the most vulnerable object of its members
TYPES = {0: 0, 1: 1, 3: 2, 2: 3, 7: 4, 5: 5, 4: 6, 6: 7}
OBJECTS = {0: 0, 4: 1, 1: 2, 2: 3, 3: 4}


def prio(E, m, table):
    return And(forall([k], dom(E, m, k) == Or(*[k == t for t in table]), [dom(E, m, k)]), *[val(E, m, z3.IntVal(t)) == v for t, v in table.items()])


def priorities(S):
    S.fn(TPRI, ensures=lambda E, A, r, p: [('priorities of the motion types', prio(E, r, TYPES))])
    S.fn(OPRI, ensures=lambda E, A, r, p: [('priorities of the object types', prio(E, r, OBJECTS))])


def samples(S):
    """one multimodal prediction turned into precision/recall samples"""
    def fs(E, A):
        M = Mo(E, A['config'])
        P, m, sc = A['prediction'], A['ids_to_tracks'], A['step_config']
        J0 = E.at(E.get(P, 'joint_predictions'), 0)
        ch, cv = E.func('spec_classified', M.I, M.T_s, M.B), E.func('spec_motion type', M.I, M.T_s, M.I)
        h = M.f('track_history_samples')
        T = lambda q: M.trk(m, M.ids(J0, q))
        return M, J0, (lambda q: ch(h, T(q))), (lambda q: cv(h, T(q)))

    def callees(E):
        M = Mo(E)
        ch, cv = E.func('spec_classified', M.I, M.T_s, M.B), E.func('spec_motion type', M.I, M.T_s, M.I)
        c = get_track(E)
        c.update(match_contract(E))
        order = E.func('spec_order', M.P_s, M.I, E.S.vec('int'))
        c[TPRI] = Contract(TPRI, ensures=lambda A, r, p: [prio(E, r, TYPES)])
        c[CT] = Contract(CT, args=('step', 'track'), requires=lambda A: [('current step inside the track', inr(A['step'], E.len(E.get(A['track'], 'states'))))], ensures=lambda A, r, p: [E.get(r, 'has') == ch(A['step'], A['track']), Implies(E.get(r, 'has'), And(E.get(r, 'val') == cv(A['step'], A['track']), E.get(r, 'val') >= 0, E.get(r, 'val') < 8))])

        def so(A, r, p):
            n, mp = E.len(E.get(A['prediction'], 'joint_predictions')), E.get(A['config'], 'max_predictions')
            return [r == order(A['prediction'], mp), E.len(r) == If(mp < n, mp, n), forall([k], Implies(inr(k, E.len(r)), inr(E.at(r, k), n)), [E.at(r, k)])]
        c[GS] = Contract(GS, args=('config', 'prediction'), requires=lambda A: [('some prediction is evaluated', E.get(A['config'], 'max_predictions') >= 1)], ensures=so)
        return c

    def rank(t):
        r = z3.IntVal(-1)
        for a, b in TYPES.items():
            r = If(t == a, z3.IntVal(b), r)
        return r

    def typ(E, A):
        M, J0, ch, cv = fs(E, A)
        best, some = E.func('spec_type so far', M.I, M.I), E.func('spec_some classified', M.I, M.B)
        up = And(ch(k), rank(cv(k)) > rank(best(k)))
        ax = [best(I0) == 0, Not(some(I0)), forall([k], Implies(k >= 0, And(best(k + 1) == If(up, cv(k), best(k)), some(k + 1) == Or(some(k), ch(k)))), [best(k + 1), some(k + 1), z3.MultiPattern(best(k), M.traj(J0, k))])]
        return M, J0, best, some, ax

    def smp(E, A):
        """samples taken from the predictions in order of confidence"""
        M = Mo(E, A['config'])
        P, m, soft = A['prediction'], A['ids_to_tracks'], A['use_soft_mean_average_precision']
        s = E.get(A['step_config'], 'measurement_step')
        o = E.func('spec_order', M.P_s, M.I, E.S.vec('int'))(P, M.f('max_predictions'))
        d, v = im(E, M, m)
        J = lambda q: E.at(E.get(P, 'joint_predictions'), E.at(o, q))
        dec, hit = (lambda q: d(J(q), m, s)), (lambda q: v(J(q), m, s))
        found, cnt, any_ = E.func('spec_match found before', M.I, M.B), E.func('spec_samples before', M.I, M.I), E.func('spec_decided before', M.I, M.B)
        kept = lambda q: And(dec(q), Not(And(soft, hit(q), found(q))))
        ax = [Not(found(I0)), cnt(I0) == 0, Not(any_(I0)), forall([k], Implies(k >= 0, And(found(k + 1) == Or(found(k), And(dec(k), hit(k))), any_(k + 1) == Or(any_(k), dec(k)), cnt(k + 1) == cnt(k) + If(kept(k), z3.IntVal(1), I0))), [cnt(k + 1), found(k + 1), any_(k + 1), z3.MultiPattern(cnt(k), E.at(o, k))])]
        return o, J, hit, found, cnt, any_, kept, ax

    def holds(E, A, b, n):
        o, J, hit, found, cnt, any_, kept, _ = smp(E, A)
        v = E.get(b, 'samples')
        x = lambda q: E.at(v, cnt(q))
        return [('as many samples as decided predictions', And(E.len(v) == cnt(n), cnt(n) >= 0)),
                ('a sample for each decided prediction: its confidence, positive when it is the first match', forall([k], Implies(And(inr(k, n), kept(k)), And(inr(cnt(k), cnt(n)), E.get(x(k), 'confidence') == E.get(J(k), 'confidence'), E.get(x(k), 'true_positive') == And(hit(k), Not(found(k))))), [E.at(o, k)]))]

    def req(E, A):
        M, J0, best, some, ax = typ(E, A)
        v = E.get(A['prediction'], 'joint_predictions')
        J = E.at(v, j)
        y = M.ids(J, k)
        m = A['ids_to_tracks']
        h = M.f('track_history_samples')
        return ax + smp(E, A)[-1] + [E.len(E.get(A['result'], 'pr_buckets')) == 0, M.f('max_predictions') >= 1, h >= 0, h < M.nstates(), inr(E.get(A['step_config'], 'measurement_step'), M.nsteps()),
            forall([j, k], Implies(And(inr(j, E.len(v)), inr(k, M.ntr(J))), And(dom(E, m, y), E.get(val(E, m, y), 'has'), M.sizes(M.traj(J, k), M.trk(m, y)))), [M.traj(J, k)])]

    def l0(E, L):
        M, J0, best, some, _ = typ(E, E.A)
        b = E.get(L.v('result'), 'pr_buckets')
        return [('highest priority so far', L.v('type') == best(L.k)), ('some classified', L.v('valid_type_found') == some(L.k)), ('a type', And(best(L.k) >= 0, best(L.k) < 8)), ('eight empty buckets', And(E.len(b) == 8, forall([k], Implies(inr(k, 8), And(E.len(E.get(E.at(b, k), 'samples')) == 0, E.get(E.at(b, k), 'num_trajectories') == 0)), [E.at(b, k)])))]

    def ty(E, A):
        M, J0, best, some, _ = typ(E, A)
        t = best(M.ntr(J0))
        return If(t == 6, z3.IntVal(7), t)

    def others(E, A, b, t):
        return forall([k], Implies(And(inr(k, 8), k != t), And(E.len(E.get(E.at(b, k), 'samples')) == 0, E.get(E.at(b, k), 'num_trajectories') == 0)), [E.at(b, k)])

    def l1(E, L):
        o, J, hit, found, cnt, any_, kept, _ = smp(E, E.A)
        b = E.get(L.v('result'), 'pr_buckets')
        t = ty(E, E.A)
        return [('bucket', And(L.v('type') == t, E.len(b) == 8, inr(t, z3.IntVal(8)))), ('match found', L.v('already_found_positive') == found(L.k)), ('some decided', L.v('measurement_taken') == any_(L.k)), ('other buckets empty', others(E, E.A, b, t)),
                ('count not yet changed', E.get(E.at(b, t), 'num_trajectories') == 0)] + holds(E, E.A, E.at(b, t), L.k)

    def ens(E, A, r, p):
        M, J0, best, some, _ = typ(E, A)
        v = E.get(A['prediction'], 'joint_predictions')
        b = E.get(p['result'], 'pr_buckets')
        t = ty(E, A)
        o, J, hit, found, cnt, any_, kept, _ = smp(E, A)
        n = E.len(o)
        use = And(E.len(v) > 0, M.ntr(J0) > 0, some(M.ntr(J0)))
        return [('succeeds', OK(E, r)), ('one bucket per motion type', E.len(b) == 8), ('only the bucket of the rarest motion is filled', others(E, A, b, If(use, t, z3.IntVal(-1)))), ('right u-turns are binned with right turns', Implies(use, t != 6)),
                ('one ground truth when a prediction was decided', Implies(use, E.get(E.at(b, t), 'num_trajectories') == If(any_(n), z3.IntVal(1), I0)))] + [(nm, Implies(use, f)) for nm, f in holds(E, A, E.at(b, t), n)]
    S.fn(ANON + 'ComputeMeanAveragePrecision', nparams=6, label='ComputeMeanAveragePrecision (samples)', callees=callees, requires=req, loops={0: l0, 1: l1}, ensures=ens)

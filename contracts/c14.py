"""C14: contracts on the validation of motion submissions and on the conversion of challenge submissions."""
from spec import *

i, j, k, x = z3.Ints('spec!i spec!j spec!k spec!x')
OK = lambda E, r: E.get(r, '_code') == 0


def dom(E, s, v):
    return z3.Select(E.get(s, 'dom'), v)


def jps(E, M):
    return E.get(M, 'joint_predictions')


def trs(E, M, q):
    return E.get(E.at(jps(E, M), q), 'trajectories')


class Ids:
    """has(v, n, x): object x is among the first n trajectories of the list v;
    any(v, n, x): object x is in one of the first n joint predictions of the list v;
    every(v, n, x): object x is in one of the first n multimodal predictions of the list v"""
    def __init__(self, E, mm=None):
        I, B = z3.IntSort(), z3.BoolSort()
        self.E = E
        P = E.S
        ms = P.message('waymo.open_dataset.MultimodalPrediction') if mm is None else mm
        self.M = ms
        m = z3.Const('spec!m', ms)
        J = jps(E, m).sort()
        v, T = z3.Const('spec!v', J), trs(E, m, i).sort()
        t = z3.Const('spec!t', T)
        self.has, self.any = E.func('spec_object among the trajectories', T, I, I, B), E.func('spec_object among the joint predictions', J, I, I, B)
        self.wf = E.func('spec_well formed prediction', ms, I, B)
        step = lambda f, l, e: [forall([l, x], Not(f(l, I0, x)), [f(l, I0, x)]), forall([l, k, x], Implies(k >= 0, f(l, k + 1, x) == Or(f(l, k, x), e(l))), [f(l, k + 1, x), z3.MultiPattern(f(l, k, x), E.at(l, k))])]
        self.step = step
        self.ax = step(self.has, t, lambda l: E.get(E.at(l, k), 'object_id') == x) + step(self.any, v, lambda l: self.objs(E.get(E.at(l, k), 'trajectories'), x))

    def objs(self, t, y):
        return self.has(t, self.E.len(t), y)

    def of(self, M, y):
        return self.any(jps(self.E, M), self.E.len(jps(self.E, M)), y)

    def sizes(self, M, size, upto, at=None):
        """the trajectories before position (upto, at) have the expected length"""
        E = self.E
        t = E.at(trs(E, M, i), j)
        before = inr(i, upto) if at is None else Or(inr(i, upto), And(i == upto, j < at))
        return forall([i, j], Implies(And(i >= 0, before, inr(j, E.len(trs(E, M, i)))), And(E.len(E.get(t, 'center_x')) == size, E.len(E.get(t, 'center_y')) == size)), [t])

    def same(self, M, n):
        E = self.E
        return forall([i, x], Implies(inr(i, n), self.objs(trs(E, M, i), x) == self.objs(trs(E, M, 0), x)), [self.objs(trs(E, M, i), x)])

    def well(self, M, size):
        n = self.E.len(jps(self.E, M))
        return And(self.sizes(M, size, n), self.same(M, n))

    def mine(self, M):
        return [self.E.len(trs(self.E, M, i)) >= 0]

    def nonneg(self, M):
        E = self.E
        t = E.at(trs(E, M, i), j)
        return [forall([i], E.len(trs(E, M, i)) >= 0, [trs(E, M, i)])]


def val(E, s, v):
    return z3.Select(E.get(s, 'val'), v)


def build(S):
    multimodal(S)
    required(S)
    predictions(S)
    tracks(S)
    challenge(S)
    convert(S)
    lookups(S)


def multimodal(S):
    def req(E, A):
        D = Ids(E, A['multi_modal_prediction'].sort())
        return D.ax + D.nonneg(A['multi_modal_prediction'])

    def l0(E, L):
        M, size, old = E.A['multi_modal_prediction'], E.A['expected_trajectory_size'], E.A['prediction_ids']
        D = Ids(E, M.sort())
        n = L.k
        s = L.v('trajectory_ids')
        return [('lengths so far', D.sizes(M, size, n)), ('same objects so far', D.same(M, n)),
                ('objects of the first joint prediction', Implies(n > 0, forall([x], dom(E, s, x) == D.objs(trs(E, M, 0), x), [dom(E, s, x)]))),
                ('objects collected', forall([x], dom(E, L.v('prediction_ids'), x) == Or(dom(E, old, x), D.any(jps(E, M), n, x)), [dom(E, L.v('prediction_ids'), x)]))] + flag(E, L)

    def flag(E, L):
        try:
            f = L.v('is_first_prediction')
        except Exception:
            return []
        return [('first', f == (L.k == 0))]

    def l1(E, L):
        M, size, old = E.A['multi_modal_prediction'], E.A['expected_trajectory_size'], E.A['prediction_ids']
        D = Ids(E, M.sort())
        o = L.outer[-1]
        t = trs(E, M, o)
        return [('lengths so far', D.sizes(M, size, o, L.k)),
                ('objects of this joint prediction', forall([x], dom(E, L.v('ids'), x) == D.has(t, L.k, x), [dom(E, L.v('ids'), x)])),
                ('objects collected', forall([x], dom(E, L.v('prediction_ids'), x) == Or(dom(E, old, x), D.any(jps(E, M), o, x), D.has(t, L.k, x)), [dom(E, L.v('prediction_ids'), x)]))]

    def ens(E, A, r, p):
        M, size = A['multi_modal_prediction'], A['expected_trajectory_size']
        D = Ids(E, M.sort())
        return [('accepted only when well formed', Implies(OK(E, r), D.well(M, size))), ('rejected only when malformed', Implies(Not(OK(E, r)), Not(D.well(M, size)))),
                ('objects collected', Implies(OK(E, r), forall([x], dom(E, p['prediction_ids'], x) == Or(dom(E, A['prediction_ids'], x), D.of(M, x)), [dom(E, p['prediction_ids'], x)])))]
    S.fn(ANON + 'ValidateMultiModalPrediction', requires=req, ensures=ens, loops={0: l0, 1: l1})


def reqids(E, sc):
    """req(v, n, x): one of the first n tracks to predict is the track of object x"""
    I, B = z3.IntSort(), z3.BoolSort()
    v = E.get(sc, 'tracks_to_predict')
    f = E.func('spec_object required', v.sort(), I, I, B)
    idx = lambda q: E.get(E.at(v, q), 'track_index')
    tr = E.get(sc, 'tracks')
    ax = [forall([x], Not(f(v, I0, x)), [f(v, I0, x)]), forall([k, x], Implies(k >= 0, f(v, k + 1, x) == Or(f(v, k, x), E.get(E.at(tr, idx(k)), 'id') == x)), [f(v, k + 1, x), z3.MultiPattern(f(v, k, x), E.at(v, k))])]
    inside = lambda n: forall([k], Implies(inr(k, n), inr(idx(k), E.len(tr))), [E.at(v, k)])
    return f, v, ax, inside


def required(S):
    def inv(E, L):
        f, v, _, inside = reqids(E, E.A['scenario'])
        s = L.v('required_object_ids')
        return [('indices so far', inside(L.k)), ('objects so far', forall([x], dom(E, s, x) == f(v, L.k, x), [dom(E, s, x)]))]

    def ens(E, A, r, p):
        f, v, _, inside = reqids(E, A['scenario'])
        good = And(inside(E.len(v)), forall([x], dom(E, A['predicted_object_ids'], x) == f(v, E.len(v), x), [f(v, E.len(v), x), dom(E, A['predicted_object_ids'], x)]))
        return [('accepted only for the required objects', Implies(OK(E, r), good)), ('rejected only for other objects', Implies(Not(OK(E, r)), Not(good)))]
    none = lambda E, L: []
    S.fn(ANON + 'ValidateRequiredIds', requires=lambda E, A: reqids(E, A['scenario'])[2], ensures=ens, loops={0: inv, 1: none, 2: none})


def predictions(S):
    vm, vr = ANON + 'ValidateMultiModalPrediction', ANON + 'ValidateRequiredIds'

    def ids(E, A):
        v = E.get(A['scenario_predictions'], 'multi_modal_predictions')
        D = Ids(E, E.at(v, I0).sort())
        un = E.func('spec_object among the multimodal predictions', v.sort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        w = z3.Const('spec!w', v.sort())
        return D, v, un, D.step(un, w, lambda l: D.of(E.at(l, k), x))

    def size(E, c):
        f = lambda n: E.get(c, n)
        a, b = f('track_future_samples') * f('prediction_steps_per_second'), f('track_steps_per_second')
        return a / b

    def req(E, A):
        D, v, un, ax = ids(E, A)
        c = A['config']
        return D.ax + ax + reqids(E, A['scenario'])[2] + [E.get(c, 'track_steps_per_second') >= 1, E.get(c, 'prediction_steps_per_second') >= 1, E.get(c, 'track_future_samples') >= 0]

    def callees(E):
        def ens_m(A, r, p):
            D = Ids(E, A['multi_modal_prediction'].sort())
            M = A['multi_modal_prediction']
            return [OK(E, r) == D.wf(M, A['expected_trajectory_size']), Implies(OK(E, r), forall([x], dom(E, p['prediction_ids'], x) == Or(dom(E, A['prediction_ids'], x), D.of(M, x)), [dom(E, p['prediction_ids'], x)]))]

        def ens_r(A, r, p):
            f, v, _, inside = reqids(E, A['scenario'])
            return [OK(E, r) == And(inside(E.len(v)), forall([x], dom(E, A['predicted_object_ids'], x) == f(v, E.len(v), x), [f(v, E.len(v), x), dom(E, A['predicted_object_ids'], x)]))]
        return {vm: Contract(vm, ensures=ens_m, modifies=('prediction_ids',), args=('multi_modal_prediction', 'expected_trajectory_size', 'prediction_ids')),
                vr: Contract(vr, ensures=ens_r, args=('scenario', 'predicted_object_ids'))}

    def well(E, A, n):
        D, v, un, _ = ids(E, A)
        return forall([k], Implies(inr(k, n), D.wf(E.at(v, k), size(E, A['config']))), [E.at(v, k)])

    def inv(E, L):
        D, v, un, _ = ids(E, E.A)
        return [('predictions so far are well formed', well(E, E.A, L.k))] + [('objects so far', forall([x], dom(E, L.v(s), x) == un(v, L.k, x), [dom(E, L.v(s), x)])) for s in ('predicted_object_ids', 'prediction_ids')]

    def ens(E, A, r, p):
        D, v, un, _ = ids(E, A)
        f, t, _, inside = reqids(E, A['scenario'])
        good = And(E.get(A['scenario_predictions'], 'scenario_id') == E.get(A['scenario'], 'scenario_id'), well(E, A, E.len(v)), inside(E.len(t)),
                   forall([x], un(v, E.len(v), x) == f(t, E.len(t), x), [un(v, E.len(v), x), f(t, E.len(t), x)]))
        return [('accepted only when well formed', Implies(OK(E, r), good)), ('rejected only when malformed', Implies(Not(OK(E, r)), Not(good)))]
    S.fn(ANON + 'ValidatePredictions', requires=req, ensures=ens, loops={0: inv}, callees=callees)


def tracks(S):
    def vt(E, A):
        m, c = A['ids_to_tracks'], A['config']
        want = E.get(c, 'track_history_samples') + E.get(c, 'track_future_samples') + 1
        return m, lambda y: E.len(E.get(E.get(val(E, m, y), 'val'), 'states')) == want

    def inv(E, L):
        m, good = vt(E, E.A)
        return [('so far', forall([k], Implies(inr(k, L.k), good(L.enum(k))), [L.enum(k)]))]

    def ens(E, A, r, p):
        m, good = vt(E, A)
        w = forall([x], Implies(dom(E, m, x), good(x)), [dom(E, m, x)])
        return [('accepted only when every track has the length', Implies(OK(E, r), w)), ('rejected only for another length', Implies(Not(OK(E, r)), Not(w)))]
    S.fn(ANON + 'ValidateTracks', requires=lambda E, A: [forall([x], Implies(dom(E, A['ids_to_tracks'], x), E.get(val(E, A['ids_to_tracks'], x), 'has')), [dom(E, A['ids_to_tracks'], x)])], ensures=ens, loops={0: inv})

    def pid(E, A):
        v = E.get(A['predictions'], 'multi_modal_predictions')
        D = Ids(E, E.at(v, I0).sort())
        return D, v, A['ids_to_tracks']

    def ok(E, A, a, b=None, c=None):
        """every trajectory before position (a, b, c) is of a known object"""
        D, v, m = pid(E, A)
        t = trs(E, E.at(v, i), j)
        last = And(i == a, j < b) if b is not None else z3.BoolVal(False)
        if c is not None:
            last = Or(last, And(i == a, j == b, k < c))
        return forall([i, j, k], Implies(And(i >= 0, j >= 0, Or(i < a, last), inr(j, E.len(jps(E, E.at(v, i)))), inr(k, E.len(t))), dom(E, m, E.get(E.at(t, k), 'object_id'))), [E.at(t, k)])

    def ens2(E, A, r, p):
        D, v, m = pid(E, A)
        w = ok(E, A, E.len(v))
        return [('accepted only when every object is known', Implies(OK(E, r), w)), ('rejected only for an unknown object', Implies(Not(OK(E, r)), Not(w)))]
    S.fn(ANON + 'ValidatePredictionIds', ensures=ens2, loops={0: lambda E, L: [('so far', ok(E, E.A, L.k))], 1: lambda E, L: [('so far', ok(E, E.A, L.outer[-1], L.k))],
                                                              2: lambda E, L: [('so far', ok(E, E.A, L.outer[-2], L.outer[-1], L.k))]})


def challenge(S):
    q = NS + 'ValidateChallengePredictions'
    e = S.program().enums

    def parts(E, A):
        v = E.get(A['scenario_predictions'], 'multi_modal_predictions')
        ty = A['submission_type']
        want = If(ty == INTER, z3.IntVal(2), z3.IntVal(1))
        sz = E.len(trs(E, E.at(v, i), j))
        n = E.len(jps(E, E.at(v, i)))
        return v, ty, want, sz, n
    MOTION, INTER = 1, 2

    def upto(E, A, a, b=None):
        v, ty, want, sz, n = parts(E, A)
        before = inr(i, a) if b is None else Or(inr(i, a), And(i == a, j < b))
        return forall([i, j], Implies(And(i >= 0, before, inr(j, n)), sz == want), [trs(E, E.at(v, i), j)])

    def l1(E, L):
        return [('so far', upto(E, E.A, L.outer[-1], L.k))]

    def ens(E, A, r, p):
        v, ty, want, sz, n = parts(E, A)
        good = And(Or(ty == MOTION, ty == INTER), Implies(ty == INTER, E.len(v) <= 1), upto(E, A, E.len(v)))
        return [('accepted only with the right number of objects', Implies(OK(E, r), good)), ('rejected only with a wrong number of objects', Implies(Not(OK(E, r)), Not(good)))]
    S.fn(q, ensures=ens, loops={0: lambda E, L: [('so far', upto(E, E.A, L.k))], 1: l1})


class Points:
    """the coordinates of d are those of s, in order"""
    def __init__(self, E):
        self.E = E

    def xy(self, t):
        return self.E.get(t, 'center_x'), self.E.get(t, 'center_y')

    def sized(self, s):
        a, b = self.xy(s)
        return self.E.len(a) == self.E.len(b)


def convert(S):
    def single(E, A, res, a, b=None, c=None):
        """the converted submission holds the trajectories before position (a, b) and c points of the next one"""
        old = E.get(A['result'], 'multi_modal_predictions')
        new = E.get(res, 'multi_modal_predictions')
        P = E.get(A['prediction_set'], 'predictions')
        n0 = E.len(old)
        M = E.at(new, n0 + i)
        src = E.get(E.at(P, i), 'trajectories')
        st = E.at(src, j)
        J = E.at(jps(E, M), j)
        T = E.at(E.get(J, 'trajectories'), I0)
        full = inr(i, a) if b is None else Or(inr(i, a), And(i == a, j < b))
        here = And(i >= 0, full, inr(j, E.len(src)))
        px, py = Points(E).xy(E.get(st, 'trajectory'))
        tx, ty = Points(E).xy(T)
        r = [('scenario id', E.get(res, 'scenario_id') == A['scenario_id']),
             ('one multimodal prediction per object', E.len(new) == n0 + (a if b is None else a + 1)),
             ('earlier predictions stay', forall([i], Implies(inr(i, n0), E.at(new, i) == E.at(old, i)), [E.at(new, i)])),
             ('one joint prediction per trajectory', forall([i], Implies(inr(i, a), E.len(jps(E, M)) == E.len(src)), [M, E.at(P, i)])),
             ('confidence, object and number of points', forall([i, j], Implies(here, And(E.get(J, 'confidence') == E.get(st, 'confidence'), E.len(E.get(J, 'trajectories')) == 1, E.get(T, 'object_id') == E.get(E.at(P, i), 'object_id'),
                                                                                      E.len(px) == E.len(py), E.len(tx) == E.len(px), E.len(ty) == E.len(py))), [J, st])),
             ('points', forall([i, j, k], Implies(And(here, inr(k, E.len(px))), And(E.at(tx, k) == E.at(px, k), E.at(ty, k) == E.at(py, k))), [E.at(tx, k), E.at(ty, k), E.at(px, k), E.at(py, k)]))]
        if b is not None:
            sub = lambda f: z3.substitute(f, (i, a if z3.is_expr(a) else z3.IntVal(a)), (j, b if z3.is_expr(b) else z3.IntVal(b)))
            r.append(('joint predictions of this object', sub(E.len(jps(E, M))) == (b if c is None else b + 1)))
            if c is not None:
                r.append(('confidence, object and number of points of this one', sub(And(E.get(J, 'confidence') == E.get(st, 'confidence'), E.len(E.get(J, 'trajectories')) == 1, E.get(T, 'object_id') == E.get(E.at(P, i), 'object_id'),
                                                                                      E.len(px) == E.len(py), E.len(tx) == c, E.len(ty) == c))))
                r.append(('points of this one', forall([k], Implies(inr(k, c), sub(And(E.at(tx, k) == E.at(px, k), E.at(ty, k) == E.at(py, k)))), [sub(E.at(tx, k)), sub(E.at(ty, k))])))
        return r

    def req(E, A):
        P = E.get(A['prediction_set'], 'predictions')
        st = E.at(E.get(E.at(P, i), 'trajectories'), j)
        px, py = Points(E).xy(E.get(st, 'trajectory'))
        return [forall([i, j], And(E.len(px) >= 0, E.len(py) >= 0), [st]), forall([i], E.len(E.get(E.at(P, i), 'trajectories')) >= 0, [E.at(P, i)])]

    def ens(E, A, r, p):
        P = E.get(A['prediction_set'], 'predictions')
        st = E.at(E.get(E.at(P, i), 'trajectories'), j)
        good = forall([i, j], Implies(And(inr(i, E.len(P)), inr(j, E.len(E.get(E.at(P, i), 'trajectories')))), Points(E).sized(E.get(st, 'trajectory'))), [st])
        return [('accepted only when every trajectory has as many x as y', Implies(OK(E, r), good)), ('rejected only for a mismatch', Implies(Not(OK(E, r)), Not(good)))] + [(n, Implies(OK(E, r), f)) for n, f in single(E, A, p['result'], E.len(P))]
    S.fn(ANON + 'ConvertSinglePredictions', requires=req, ensures=ens, loops={0: lambda E, L: single(E, E.A, L.v('result'), L.k), 1: lambda E, L: single(E, E.A, L.v('result'), L.outer[-1], L.k),
                                                                              2: lambda E, L: single(E, E.A, L.v('result'), L.outer[-2], L.outer[-1], L.v('i'))})


    joint(S)
    dispatch(S)


def jsub(f, *qs):
    e = lambda v: v if z3.is_expr(v) else z3.IntVal(v)
    return z3.substitute(f, *[(v, e(q)) for v, q in zip((i, j, k), qs)])


def joint(S):
    def conv(E, A, res, a, b=None, c=None):
        """one multimodal prediction more, holding the first a joint trajectories, b objects of the next one and c points of the next object"""
        old = E.get(A['result'], 'multi_modal_predictions')
        new = E.get(res, 'multi_modal_predictions')
        src = E.get(A['joint_prediction'], 'joint_trajectories')
        n0 = E.len(old)
        M = E.at(new, n0)
        s = E.at(src, i)
        st = E.at(E.get(s, 'trajectories'), j)
        J = E.at(jps(E, M), i)
        T = E.at(E.get(J, 'trajectories'), j)
        px, py = Points(E).xy(E.get(st, 'trajectory'))
        tx, ty = Points(E).xy(T)
        both = Or(inr(i, a), And(i == a, j < b)) if b is not None else inr(i, a)
        here = And(i >= 0, both, inr(j, z3.IntVal(2)))
        obj = And(E.get(T, 'object_id') == E.get(st, 'object_id'))
        r = [('scenario id', E.get(res, 'scenario_id') == A['scenario_id']),
             ('one multimodal prediction more', E.len(new) == n0 + 1),
             ('earlier predictions stay', forall([i], Implies(inr(i, n0), E.at(new, i) == E.at(old, i)), [E.at(new, i)])),
             ('joint predictions', E.len(jps(E, M)) == (a if b is None else a + 1)),
             ('confidence and two objects', forall([i], Implies(inr(i, a), And(E.get(J, 'confidence') == E.get(s, 'confidence'), E.len(E.get(s, 'trajectories')) == 2, E.len(E.get(J, 'trajectories')) == 2)), [J, s])),
             ('object and number of points', forall([i, j], Implies(here, And(obj, E.len(px) == E.len(py), E.len(tx) == E.len(px), E.len(ty) == E.len(px))), [T, st])),
             ('points', forall([i, j, k], Implies(And(here, inr(k, E.len(px))), And(E.at(tx, k) == E.at(px, k), E.at(ty, k) == E.at(py, k))), [E.at(tx, k), E.at(ty, k), E.at(px, k), E.at(py, k)]))]
        if b is not None:
            r.append(('this joint prediction', jsub(And(E.get(J, 'confidence') == E.get(s, 'confidence'), E.len(E.get(s, 'trajectories')) == 2, E.len(E.get(J, 'trajectories')) == (b if c is None else b + 1)), a)))
        if c is not None:
            r.append(('this object', jsub(And(obj, E.len(px) == E.len(py), E.len(tx) == c, E.len(ty) == c), a, b)))
            r.append(('points of this one', forall([k], Implies(inr(k, c), jsub(And(E.at(tx, k) == E.at(px, k), E.at(ty, k) == E.at(py, k)), a, b)), [jsub(E.at(tx, k), a, b), jsub(E.at(ty, k), a, b)])))
        return r

    def req(E, A):
        s = E.at(E.get(A['joint_prediction'], 'joint_trajectories'), i)
        st = E.at(E.get(s, 'trajectories'), j)
        px, py = Points(E).xy(E.get(st, 'trajectory'))
        return [forall([i, j], And(E.len(px) >= 0, E.len(py) >= 0), [st])]

    def ens(E, A, r, p):
        src = E.get(A['joint_prediction'], 'joint_trajectories')
        s = E.at(src, i)
        st = E.at(E.get(s, 'trajectories'), j)
        good = And(forall([i], Implies(inr(i, E.len(src)), E.len(E.get(s, 'trajectories')) == 2), [s]),
                   forall([i, j], Implies(And(inr(i, E.len(src)), inr(j, z3.IntVal(2))), Points(E).sized(E.get(st, 'trajectory'))), [st]))
        return [('accepted only with two objects and as many x as y', Implies(OK(E, r), good)), ('rejected only for another number of objects or a mismatch', Implies(Not(OK(E, r)), Not(good)))] + [
            (n, Implies(OK(E, r), f)) for n, f in conv(E, A, p['result'], E.len(src))]
    S.fn(ANON + 'ConvertJointPrediction', requires=req, ensures=ens, loops={0: lambda E, L: conv(E, E.A, L.v('result'), L.k), 1: lambda E, L: conv(E, E.A, L.v('result'), L.outer[-1], L.k),
                                                                            2: lambda E, L: conv(E, E.A, L.v('result'), L.outer[-2], L.outer[-1], L.v('i'))})


def dispatch(S):
    qs, qj = ANON + 'ConvertSinglePredictions', ANON + 'ConvertJointPrediction'

    def ok(E, what, src, sid, old):
        return E.func('spec_%s can be converted' % what, src.sort(), z3.BoolSort())(src)

    def out(E, what, src, sid, old):
        return E.func('spec_%s converted' % what, src.sort(), sid.sort(), old.sort(), old.sort())(src, sid, old)

    def callees(E):
        def one(q, what, arg):
            a = lambda A: (E, what, A[arg], A['scenario_id'], A['result'])
            return Contract(q, modifies=('result',), args=(arg, 'scenario_id', 'result'), ensures=lambda A, r, p: [OK(E, r) == ok(*a(A)), Implies(OK(E, r), p['result'] == out(*a(A)))])
        return {qs: one(qs, 'single predictions', 'prediction_set'), qj: one(qj, 'joint prediction', 'joint_prediction')}

    def ens(E, A, r, p):
        P = A['predictions']
        f = lambda n: E.get(P, n)
        a = lambda what, n: (E, what, f(n), f('scenario_id'), A['result'])
        s, q = f('has_single_predictions'), f('has_joint_prediction')
        u, v = a('single predictions', 'single_predictions'), a('joint prediction', 'joint_prediction')
        return [('accepted exactly when its predictions are', OK(E, r) == If(s, ok(*u), And(q, ok(*v)))), ('single predictions', Implies(And(OK(E, r), s), p['result'] == out(*u))), ('joint prediction', Implies(And(OK(E, r), Not(s)), p['result'] == out(*v)))]
    S.fn(NS + 'ConvertChallengePredictions', ensures=ens, callees=callees)


def good_config(E, c):
    f = lambda n: E.get(c, n)
    a, b = f('track_steps_per_second'), f('prediction_steps_per_second')
    v = f('step_configurations')
    m = E.get(E.at(v, k), 'measurement_step')
    steps = (f('track_future_samples') * b) / a
    return And(b > 0, b <= a, a % b == 0), lambda n: forall([k], Implies(inr(k, n), inr(m, steps)), [E.at(v, k)]), v


def whole(S):
    def inv(E, L):
        a, b, v = good_config(E, E.A['config'])
        return [('so far', b(L.k))]

    def ens(E, A, r, p):
        a, b, v = good_config(E, A['config'])
        good = And(a, b(E.len(v)))
        return [('accepted only when the rates divide and the steps are predicted', Implies(OK(E, r), good)), ('rejected only for bad rates or steps', Implies(Not(OK(E, r)), Not(good)))]
    S.fn(ANON + 'ValidateConfig', requires=lambda E, A: [E.get(A['config'], 'track_future_samples') >= 0], ensures=ens, loops={0: inv})


def stats(S):
    """the public entry point: metrics are computed only for configurations and predictions that pass every check"""
    q = {n: ANON + n for n in ('ValidateConfig', 'ValidatePredictions', 'ValidateTracks', 'ValidatePredictionIds', 'ComputeAllMetrics')}

    def preds(E, A):
        B, c, P, s = z3.BoolSort(), A['config'], A['predictions'], A['scenario']
        return (E.func('spec_config valid', c.sort(), B)(c), E.func('spec_predictions valid', c.sort(), P.sort(), s.sort(), B)(c, P, s),
                lambda m: E.func('spec_tracks valid', c.sort(), m.sort(), B)(c, m), lambda m: E.func('spec_ids valid', P.sort(), m.sort(), B)(P, m), lambda m: E.func('spec_computed', m.sort(), B)(m))

    def built(E, A, m, n):
        """m maps the objects of the first n tracks to predict to their tracks"""
        f, v, _, _ = reqids(E, A['scenario'])
        tr = E.get(A['scenario'], 'tracks')
        return [('objects to predict', forall([x], dom(E, m, x) == f(v, n, x), [dom(E, m, x)])), ('their tracks', forall([x], Implies(dom(E, m, x), And(E.get(val(E, m, x), 'has'), E.get(E.get(val(E, m, x), 'val'), 'id') == x)), [dom(E, m, x)]))]

    def callees(E):
        c = {}
        c[q['ValidateConfig']] = Contract(q['ValidateConfig'], ensures=lambda A, r, p: [OK(E, r) == preds(E, E.A)[0]])
        c[q['ValidatePredictions']] = Contract(q['ValidatePredictions'], requires=lambda A: [('valid configuration', preds(E, E.A)[0])], ensures=lambda A, r, p: [OK(E, r) == preds(E, E.A)[1]])
        c[q['ValidateTracks']] = Contract(q['ValidateTracks'], args=('config', 'ids_to_tracks'), requires=lambda A: built(E, E.A, A['ids_to_tracks'], E.len(E.get(E.A['scenario'], 'tracks_to_predict'))), ensures=lambda A, r, p: [OK(E, r) == preds(E, E.A)[2](A['ids_to_tracks'])])
        c[q['ValidatePredictionIds']] = Contract(q['ValidatePredictionIds'], args=('predictions', 'ids_to_tracks'), ensures=lambda A, r, p: [OK(E, r) == preds(E, E.A)[3](A['ids_to_tracks'])])

        def before(A):
            a, b, t, i_, _ = preds(E, E.A)
            m = A['ids_to_tracks']
            return [('the configuration is valid', a), ('the predictions are valid', b), ('the tracks have the right length', t(m)), ('every predicted object is known', i_(m))] + built(E, E.A, m, E.len(E.get(E.A['scenario'], 'tracks_to_predict')))
        c[q['ComputeAllMetrics']] = Contract(q['ComputeAllMetrics'], args=('config', 'predictions', 'ids_to_tracks', 'scenario', 'result'), modifies=('result',), requires=before, ensures=lambda A, r, p: [OK(E, r) == preds(E, E.A)[4](A['ids_to_tracks'])])
        return c

    def ens(E, A, r, p):
        a, b, t, i_, cm = preds(E, A)
        m = z3.Const('spec!m', maps['sort'])
        all_ = And(t(m), i_(m), cm(m))
        return [('metrics only for valid input', Implies(OK(E, r), And(a, b))),
                ('an error only for invalid input', Implies(Not(OK(E, r)), Not(And(a, b, forall([m], Implies(And(*[f for _, f in built(E, A, m, E.len(E.get(A['scenario'], 'tracks_to_predict')))]), all_), [t(m)])))))]
    maps = {}

    def inv(E, L):
        maps['sort'] = L.v('ids_to_tracks').sort()
        return built(E, E.A, L.v('ids_to_tracks'), L.k)

    def req(E, A):
        f, v, ax, inside = reqids(E, A['scenario'])
        return ax + [Implies(preds(E, A)[1], inside(E.len(v)))]
    S.fn(NS + 'ComputeMetricsStats', requires=req, callees=callees, ensures=ens, loops={0: inv})


def lookups(S):
    whole(S)
    stats(S)
    track_of(S)


def track_of(S):
    def ens(E, A, r, p):
        m = A['ids_to_tracks']
        return [('found exactly when known', OK(E, r) == dom(E, m, A['object_id'])), ('the track of the object', Implies(OK(E, r), p['track'] == val(E, m, A['object_id'])))]
    S.fn(NS + 'GetTrack', ensures=ens)

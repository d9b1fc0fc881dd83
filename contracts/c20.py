"""C20: rater trajectories padded and truncated (rater_feedback_utils.py)."""
from spec import *
from wodvc import py as P, pynp

MOD = 'waymo_open_dataset/metrics/python/rater_feedback_utils.py'
b, p, t, d = z3.Ints('spec!b spec!p spec!t spec!d')
TRAJ = ('list', ('list', ('nd', 'real', [None, 'dimensions'])))
LAB = ('list', ('nd', 'real', [None]))


def at(s, q):
    try:
        return s[q]
    except P.EmptyElem:
        return None


def low(x, n):
    return If(x < n, x, n - 1)


def fitted(X, nb, np_, bb, pp, tt, dd):
    """the point of the result: of the same rater (or the last one) and the same time (or the last one)"""
    q = low(pp, X[bb].n)
    return X[bb][q](low(tt, X[bb][q].shape[0]), dd)


def shapes(A):
    D = z3.Int('dimensions')
    return A.target_num_trajectories_per_batch, A.target_num_waypoints, D


def inner_spec(A, bb):
    X = A.trajectory_batches
    return lambda pp, tt, dd: fitted(X, None, None, bb, pp, tt, dd)


def ragged(X):
    return [X.n > 0, forall([b], Implies(inr(b, X.n), X[b].n > 0), [X[b].n]), forall([b, p], Implies(And(inr(b, X.n), inr(p, X[b].n)), X[b][p].shape[0] > 0), [X[b][p].shape[0]])]


def counts(X, Y):
    return And(X.n == Y.n, forall([b], Implies(inr(b, X.n), X[b].n == Y[b].n), [X[b].n]))


def needs(A):
    NP, T, D = shapes(A)
    return [NP > 0, T > 0, D > 0] + ragged(A.trajectory_batches)


def agree(A):
    return counts(A.trajectory_batches, A.trajectory_labels_batches)


def build(S):
    def pre(E, A):
        return needs(A)

    def outer(E, L):
        A = E.A
        X, Y = A.trajectory_batches, A.trajectory_labels_batches
        NP, T, D = shapes(A)
        pt, pl = L.v('processed_trajectory_batches_list'), L.v('processed_labels_batches_list')
        out = [('one result per example', And(pt.n == L.k, pl.n == L.k)), ('counts agreed', forall([b], Implies(inr(b, L.k), X[b].n == Y[b].n), [X[b].n]))]
        e, f = at(pt, b), at(pl, b)
        if e is not None:
            e, f = E.val(e), E.val(f)
            g = inner_spec(A, b)
            sh = And(*[x == y for x, y in zip(e.shape, (NP, T, D))])
            out += [('shapes', forall([b], Implies(inr(b, L.k), sh), [X[b].n])),
                    ('label shapes', forall([b], Implies(inr(b, L.k), f.shape[0] == NP), [X[b].n])),
                    ('points', forall([b, p, t, d], Implies(And(inr(b, L.k), inr(p, NP), inr(t, T), inr(d, D)), e(p, t, d) == g(p, t, d)), [e(p, t, d)])),
                    ('labels', forall([b, p], Implies(And(inr(b, L.k), inr(p, NP)), f(p) == Y[b](low(p, Y[b].n))), [f(p)]))]
        return out

    def inner(E, L):
        A = E.A
        NP, T, D = shapes(A)
        ft = L.v('final_trajectories_for_current_batch')
        out = [('one per rater', ft.n == L.k)]
        e = at(ft, p)
        if e is not None:
            e = E.val(e)
            g = inner_spec(A, P.term(L.v('i')))
            out += [('rater shapes', forall([p], Implies(inr(p, L.k), And(*[x == y for x, y in zip(e.shape, (T, D))])), [e.shape[0]] if not P.cint(e.shape[0]) and not z3.is_const(e.shape[0]) else None)),
                    ('rater points', forall([p, t, d], Implies(And(inr(p, L.k), inr(t, T), inr(d, D)), e(t, d) == g(p, t, d)), [e(t, d)]))]
        return out

    def post(E, A, r, _):
        X, Y = A.trajectory_batches, A.trajectory_labels_batches
        NP, T, D = shapes(A)
        x, y = [E.val(q) for q in r]
        g = inner_spec(A, b)
        return [('shape', And(*[a == c for a, c in zip(x.shape, (X.n, NP, T, D))])), ('label shape', And(*[a == c for a, c in zip(y.shape, (X.n, NP))])),
                ('every point', forall([b, p, t, d], Implies(And(inr(b, X.n), inr(p, NP), inr(t, T), inr(d, D)), x(b, p, t, d) == g(p, t, d)), [x(b, p, t, d)])),
                ('every label', forall([b, p], Implies(And(inr(b, X.n), inr(p, NP)), y(b, p) == Y[b](low(p, Y[b].n))), [y(b, p)]))]

    def bad(E, A):
        X, Y = A.trajectory_batches, A.trajectory_labels_batches
        return {'ValueError': Or(X.n != Y.n, z3.Exists([b], And(inr(b, X.n), X[b].n != Y[b].n)))}
    S.pyfn(MOD, 'process_rater_specified_trajectories', dict(trajectory_batches=TRAJ, trajectory_labels_batches=LAB, target_num_waypoints='int', target_num_trajectories_per_batch='int'),
           requires=pre, loops={0: outer, 1: inner}, ensures=post, raises=bad)

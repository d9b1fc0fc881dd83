"""C20: rater trajectories fitted by the real code, compared point by point with the ragged input."""
import copy
import numpy as np
from waymo_open_dataset.metrics.python import rater_feedback_utils as R

RULE = 'ragged batches of 1-4 examples, 1-6 raters, 1-30 points of 1-3 dimensions, requested 1-25 points and 1-6 raters; mismatched counts'


def run(H):
    r = H.r
    npr = np.random.RandomState(r.randrange(2**31))

    def batch():
        D, T, N = r.choice([2, 2, 2, 1, 3]), r.choice([1, 2, 5, 20, 25]), r.choice([1, 2, 3, 3, 5, 6])
        X, Y = [], []
        for _ in range(r.randint(1, 4)):
            n = r.choice([N, N, 1, 2, 3, 4, 6])
            X.append([npr.uniform(-50, 50, size=(r.choice([T, T, 1, 2, max(1, T - 1), T + 1, 30]), D)) for _ in range(n)])
            Y.append(npr.uniform(0, 10, size=n) if r.random() < .7 else npr.randint(0, 11, size=n))
        return X, Y, T, N, D

    def fit():
        X, Y, T, N, D = batch()
        H.case(lambda: ['fit', [[x.tolist() for x in a] for a in X], [y.tolist() for y in Y], T, N], key=(tuple(len(a) for a in X), tuple(len(x) for a in X for x in a), T, N, float(X[0][0][0, 0])))
        X0, Y0 = copy.deepcopy(X), copy.deepcopy(Y)
        try:
            P, L = R.process_rater_specified_trajectories(X, Y, T, N)
        except Exception as e:
            H.fail('fit', '%s: %s' % (type(e).__name__, e))
            return
        H.check('arguments', all(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)) for a, b in zip(X, X0)) and all(np.array_equal(a, b) for a, b in zip(Y, Y0)), 'the arguments were modified')
        X, Y = X0, Y0
        H.check('shape', P.shape == (len(X), N, T, D) and L.shape == (len(X), N), lambda: 'shapes %s and %s, expected %s' % (P.shape, L.shape, (len(X), N, T, D)))
        if P.shape != (len(X), N, T, D) or L.shape != (len(X), N):
            return
        for b, a in enumerate(X):
            for p in range(N):
                x = a[min(p, len(a) - 1)]
                H.check('label', L[b, p] == Y[b][min(p, len(a) - 1)], lambda: 'label %d of example %d is %r' % (p, b, L[b, p]))
                for t in range(T):
                    w = x[min(t, len(x) - 1)]
                    H.check('point', np.array_equal(P[b, p, t], w), lambda: 'point %d of rater %d of example %d is %s, expected %s' % (t, p, b, P[b, p, t], w))

    def reject():
        X, Y, T, N, D = batch()
        if r.random() < .5:
            Y = Y[:-1] if r.random() < .5 else Y + [Y[0]]
        else:
            k = r.randrange(len(Y))
            Y[k] = Y[k][:-1] if r.random() < .5 else np.append(Y[k], 1)
        H.case(lambda: ['reject', [len(a) for a in X], [len(y) for y in Y], T, N], key=(tuple(len(a) for a in X), tuple(len(a) for a in Y), T, N))
        try:
            R.process_rater_specified_trajectories(X, Y, T, N)
            H.fail('reject', 'raters %s and labels %s were accepted' % ([len(a) for a in X], [len(y) for y in Y]))
        except ValueError:
            H.check('reject', True)
        except Exception as e:
            H.fail('reject', '%s instead of ValueError: %s' % (type(e).__name__, e))
    H.phases((5, fit), (1, reject))

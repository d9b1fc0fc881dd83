"""C21: the rater feedback score of the real code against a direct computation per example and proposal."""
import math
import numpy as np
from waymo_open_dataset.metrics.python import rater_feedback_utils as R

RULE = 'batches of 1-4 examples, 1-4 proposals, 1-5 raters of 1-25 points, standing, straight, turning and stopping trajectories; proposals near, inside and outside of trust regions; speeds 0-30; every parameter varied; permuted and split batches'


def unit(X, t):
    """direction of travel at a step of a rater trajectory that starts at the origin"""
    while t >= 0:
        a = X[t - 1] if t > 0 else (0.0, 0.0)
        dx, dy = X[t][0] - a[0], X[t][1] - a[1]
        n = math.hypot(dx, dy)
        if n > 0:
            return dx / n, dy / n
        t -= 1
    return 1.0, 0.0


def oracle(I, probs, raters, labels, v, mult, decay, freq, secs, N, floor):
    T = secs * freq
    P = [raters[min(p, len(raters) - 1)] for p in range(N)]
    P = [[x[min(t, len(x) - 1)] for t in range(T)] for x in P]
    L = [labels[min(p, len(labels) - 1)] for p in range(N)]
    scale = min(1.0, max(.5, .5 + .5 * (v - 1.4) / 9.6))
    score, inside, edge = 0.0, [], False
    for i, traj in enumerate(I):
        best, within = [-1e300, -1e300], False
        for p in range(N):
            ds = []
            for k, s in enumerate((3, 5)):
                t = s * freq - 1
                u = unit(P[p], t)
                e = traj[t][0] - P[p][t][0], traj[t][1] - P[p][t][1]
                lng = abs(u[0] * e[0] + u[1] * e[1])
                lat = abs(-u[1] * e[0] + u[0] * e[1])
                th = (1.0, 1.8)[k] * scale
                d = max(lng / (th * mult[1]), lat / (th * mult[0]))
                edge |= abs(d - 1) < 1e-9
                ds.append(d)
                best[k] = max(best[k], L[p] * decay ** max(d - 1, 0.0))
            within |= all(d <= 1 for d in ds)
        m = (best[0] + best[1]) / 2
        inside.append(within)
        score += probs[i] * (m if within else max(floor, m))
    return score, inside, edge, P, L


def run(H):
    r = H.r
    npr = np.random.RandomState(r.randrange(2**31))

    def path(T):
        k, h, s = r.random(), r.uniform(-3.2, 3.2), r.choice([0.0, .1, 1.0, 3.0])
        x, y, out = 0.0, 0.0, []
        turn = r.choice([0, .05, -.2])
        for t in range(T):
            if not (k < .3 and r.random() < .5) and not (k > .85 and t > T // 3):
                x, y = x + s * math.cos(h), y + s * math.sin(h)
            h += turn
            out.append((x, y))
        return np.array(out)

    def batch():
        freq, secs, N = r.choice([4, 4, 4, 1, 2, 10]), r.choice([5, 5, 5, 6]), r.choice([3, 3, 3, 1, 2, 4])
        T = freq * secs
        B, I = r.randint(1, 4), r.randint(1, 4)
        raters, labels, inf = [], [], []
        for b in range(B):
            n = r.choice([1, 2, 3, 3, 5])
            X = [path(r.choice([T, T, T, max(1, T - 3), T + 4, 1])) for _ in range(n)]
            raters.append(X)
            labels.append(np.array([r.choice([0, 2, 5.5, 8, 10, r.uniform(0, 10)]) for _ in range(n)], float))
            one = []
            for i in range(I):
                x = X[r.randrange(n)]
                x = np.array([x[min(t, len(x) - 1)] for t in range(T)])
                k = r.random()
                one.append(x if k < .2 else x + npr.normal(0, r.choice([.1, .5, 1, 3, 10]), size=2) if k < .7 else x + npr.normal(0, 1, size=(T, 2)) if k < .85 else path(T))
            inf.append(one)
        probs = npr.random_sample((B, I))
        probs = probs / probs.sum(1, keepdims=True) if r.random() < .8 else probs
        return dict(inf=np.array(inf), probs=probs, raters=raters, labels=labels, speed=np.array([r.choice([0, 1.4, 5.0, 11, 30, r.uniform(0, 15)]) for _ in range(B)], float)), dict(
            lat_lng_threshold_multipliers=r.choice([(1.0, 4.0), (1.0, 4.0), (2.0, .5)]), decay_factor=r.choice([.1, .1, .5, 1.0, .9]), frequency=freq, length_seconds=secs,
            default_num_of_rater_specified_trajectories=N, minimum_score_outside_trust_region=r.choice([4.0, 4.0, 0.0, 2.5]), output_trust_region_visualization=r.random() < .3)

    def call(d, kw, sel=None):
        sel = range(len(d['speed'])) if sel is None else sel
        return R.get_rater_feedback_score(d['inf'][list(sel)].copy(), d['probs'][list(sel)].copy(), [[x.copy() for x in d['raters'][b]] for b in sel], [d['labels'][b].copy() for b in sel], d['speed'][list(sel)].copy(), **kw)

    def close(a, b):
        return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))

    def score():
        d, kw = batch()
        B = len(d['speed'])
        H.case(lambda: ['score', d['inf'].tolist(), d['probs'].tolist(), [[x.tolist() for x in a] for a in d['raters']], [x.tolist() for x in d['labels']], d['speed'].tolist(), repr(kw)], key=d['inf'].tobytes())
        try:
            o = call(d, kw)
        except Exception as e:
            H.fail('score', '%s: %s' % (type(e).__name__, e))
            return
        s = o['rater_feedback_score']
        H.check('one score per example', s.shape == (B,), lambda: 'shape %s' % (s.shape,))
        if s.shape != (B,):
            return
        m = o['is_fully_within_trust_region']
        for b in range(B):
            w, ins, edge, P, L = oracle(d['inf'][b], d['probs'][b], d['raters'][b], d['labels'][b], d['speed'][b], kw['lat_lng_threshold_multipliers'], kw['decay_factor'], kw['frequency'], kw['length_seconds'],
                                        kw['default_num_of_rater_specified_trajectories'], kw['minimum_score_outside_trust_region'])
            if edge:
                continue
            H.check('value', close(s[b], w), lambda: 'example %d scores %r, expected %r' % (b, s[b], w))
            H.check('trust region', list(m[b]) == ins, lambda: 'example %d: %s within the trust region, expected %s' % (b, list(m[b]), ins))
            tot, mn, mx = d['probs'][b].sum(), kw['minimum_score_outside_trust_region'], max(L)
            H.check('bounds', s[b] <= tot * max(mn, mx) + 1e-9 and s[b] >= -1e-9, lambda: 'example %d scores %r with labels %s' % (b, s[b], L))
            H.check('raters', np.array_equal(o['rater_specified_trajectories'][b], np.array(P)) and np.array_equal(o['rater_feedback_labels'][b], np.array(L)), lambda: 'the fitted raters of example %d are wrong' % b)
        perm = list(range(B))
        r.shuffle(perm)
        t = call(d, kw, perm)['rater_feedback_score']
        H.check('permutation', all(t[k] == s[b] or close(t[k], s[b]) for k, b in enumerate(perm)), lambda: 'scores %s of the batch in the order %s, %s before' % (t.tolist(), perm, s.tolist()))
        b = r.randrange(B)
        t = call(d, kw, [b])['rater_feedback_score']
        H.check('alone', close(t[0], s[b]), lambda: 'example %d scores %r alone and %r in the batch' % (b, t[0], s[b]))

    def reject():
        d, kw = batch()
        T = d['inf'].shape[2]
        k = r.randrange(3)
        if k == 0:
            d['inf'] = d['inf'][:, :, :-1]
        elif k == 1:
            kw['length_seconds'] += 1
        else:
            kw['length_seconds'] = r.choice([3, 4])
            d['inf'] = d['inf'][:, :, :kw['length_seconds'] * kw['frequency']]
        H.case(lambda: ['reject', T, d['inf'].shape[2], repr(kw)], key=(k, d['inf'].shape, repr(kw)))
        try:
            call(d, kw)
            H.fail('reject', 'proposals of %d steps were accepted for %d steps' % (d['inf'].shape[2], kw['length_seconds'] * kw['frequency']))
        except ValueError:
            H.check('reject', True)
        except Exception as e:
            H.fail('reject', '%s instead of ValueError: %s' % (type(e).__name__, e))
    H.phases((8, score), (1, reject))

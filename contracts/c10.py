"""C10: contracts on score cutoff selection (metrics_utils.cc, detection_metrics.cc, tracking_metrics.cc)."""
from spec import *

IN = NS + 'internal::'
i, j, k, s, f = z3.Ints('spec!i spec!j spec!k spec!s spec!f')
rem = z3.Function('scores remaining', z3.IntSort(), z3.IntSort())
x = z3.Real('spec!x')


def clamp(x):
    return If(x < 0, R(0), If(x > 1, R(1), x))


def srt(E, v):
    return forall([i, j], Implies(And(i >= 0, i < j, j < E.len(v)), E.at(v, i) <= E.at(v, j)), [z3.MultiPattern(E.at(v, i), E.at(v, j))])


def unit(E, v):
    return forall([i], Implies(inr(i, E.len(v)), And(E.at(v, i) >= 0, E.at(v, i) <= 1)), [E.at(v, i)])


def picked(E, A, r, p=None):
    """what DecideScoreCutoffs returns for sorted scores in [0, 1]"""
    W, n, N = A[0], A[1], E.len(A[0])
    return [('as many as desired', E.len(r) == n),
            ('ascending', srt(E, r)),
            ('between 0 and 1', unit(E, r)),
            ('a single cutoff is 0', Implies(n == 1, E.at(r, I0) == 0)),
            ('the last of several is 1', Implies(n > 1, E.at(r, n - 1) == 1)),
            ('with few scores the first is 0', Implies(n >= N, E.at(r, I0) == 0)),
            ('with few scores they are equally spaced', Implies(And(n > 1, n >= N), forall([k], Implies(inr(k, n), E.at(r, k) * z3.ToReal(n - 1) == z3.ToReal(k)), [E.at(r, k)]))),
            ('with enough scores all but the last are scores, the first the smallest', Implies(And(n > 1, n < N), And(E.at(r, I0) == E.at(W, I0), forall([k], Implies(inr(k, n - 1), And(inr(N - rem(k), N), E.at(r, k) == E.at(W, N - rem(k)))), [E.at(r, k)])))),
            ('cutoffs are at distinct positions of the sorted scores', Implies(And(n > 1, n < N), forall([k], Implies(inr(k, n - 2), N - rem(k) < N - rem(k + 1)), [E.at(r, k)])))]


def build(S):
    r, d = z3.Ints('spec!r spec!d')
    S.lemma('a bucket takes at least one score and leaves enough for the others', [d >= 1, r >= d], And(r / d >= 1, r - r / d >= d - 1))

    def remax(E, A):
        n, N = A[1], E.len(A[0])
        B = n - 1
        # consequences of the lemma above for the recursion rem(0) = N, rem(k+1) = rem(k) - rem(k)/(B-k)
        return [rem(I0) == N, forall([k], Implies(inr(k, B), rem(k + 1) == rem(k) - rem(k) / (B - k)), [rem(k + 1)]),
                forall([k], Implies(And(inr(k, B), rem(k) >= B - k), And(rem(k) / (B - k) >= 1, rem(k) - rem(k) / (B - k) >= B - k - 1)), [rem(k)])]

    def l0(E, L):
        b, m = L.v('bucket_sizes'), L.v('i')
        B, N = L.v('num_buckets'), E.len(E.A[0])
        return [('the recursion', And(E.len(b) == B, L.v('num_scores_remaining') == rem(m), rem(m) >= B - m)),
                ('bucket sizes', forall([k], Implies(inr(k, m), And(E.at(b, k) == rem(k) - rem(k + 1), E.at(b, k) >= 1, rem(k) >= B - k, rem(k + 1) >= B - k - 1, rem(k) <= N)), [E.at(b, k)])),
                ('bounded', rem(m) <= N)]

    def l1(E, L):
        c, m = L.v('cutoffs'), L.v('i')
        B, W, N = L.v('num_buckets'), E.A[0], E.len(E.A[0])
        at = lambda k: E.at(c, k)
        return [('position', And(E.len(c) == m + 1, L.v('last_idx') == N - rem(m), inr(N - rem(m), N))),
                ('scores at increasing positions', forall([k], Implies(And(k >= 0, k <= m), And(inr(N - rem(k), N), at(k) == E.at(W, N - rem(k)), N - rem(k) <= N - rem(m), Implies(k < m, rem(k) > rem(k + 1)))), [at(k)])),
                ('ascending', srt(E, c))]
    S.fn(IN + 'DecideScoreCutoffs', requires=lambda E, A: [A[1] > 0, srt(E, A[0]), unit(E, A[0])] + remax(E, A), ensures=picked, loops={0: l0, 1: l1}, callees=lambda E: sequence(E))

    def seq(E, L):
        v, st, A = L.v('ret'), L.v('start'), E.A
        m = E.len(v)
        return [('multiples of the step', And(m >= 0, st == A[0] + z3.ToReal(m) * A[2], forall([k], Implies(inr(k, m), And(E.at(v, k) == A[0] + z3.ToReal(k) * A[2], E.at(v, k) < A[1])), [E.at(v, k)])))]
    S.fn(IN + '(anonymous namespace)::Sequence', requires=lambda A: [A[2] > 0, A[0] < A[1]], loops={0: seq}, ensures=lambda E, A, r, p: [
        ('starts at the start', And(E.len(r) >= 1, E.at(r, I0) == A[0])),
        ('equal steps', forall([k], Implies(inr(k, E.len(r) - 1), And(E.at(r, k) == A[0] + z3.ToReal(k) * A[2], E.at(r, k) < A[1])), [E.at(r, k)])),
        ('the last is the end or within half a step of it', Or(And(E.at(r, E.len(r) - 1) == A[1], E.len(r) >= 2, A[1] - E.at(r, E.len(r) - 2) > A[2] / 2, A[0] + z3.ToReal(E.len(r) - 1) * A[2] >= A[1]),
                                                         And(E.at(r, E.len(r) - 1) == A[0] + z3.ToReal(E.len(r) - 1) * A[2], E.at(r, E.len(r) - 1) < A[1], A[1] - E.at(r, E.len(r) - 1) <= A[2] / 2))),
        ('goes up to the end', A[0] + z3.ToReal(E.len(r)) * A[2] >= A[1])])
    m, n = z3.Ints('spec!m spec!n')
    d, e, q = z3.Reals('spec!d spec!e spec!q')
    tr = z3.ToReal
    S.lemma('a step of 1/(n-1) from 0 to 1 gives n values, the last 1', [n > 1, m >= 1, d * tr(n - 1) == 1, d > 0, tr(m) * d >= 1,
            Or(And(e == 1, m >= 2, q == tr(m - 2) * d, q < 1, 1 - q > d / 2, tr(m - 1) * d >= 1), And(e == tr(m - 1) * d, e < 1, 1 - e <= d / 2))], And(m == n, e == 1))
    estimate(S)


def sequence(E):
    """the contract of Sequence, at the step 1/(n-1) that DecideScoreCutoffs asks for"""
    q = IN + '(anonymous namespace)::Sequence'
    n = lambda: E.A[1]
    return {q: Contract(q, requires=lambda A: [('step and end', And(A[0] == 0, A[1] == 1, A[2] * z3.ToReal(n() - 1) == 1, n() > 1))],
                        ensures=lambda A, r, p: [E.len(r) == n(), E.at(r, I0) == 0, E.at(r, n() - 1) == 1, srt(E, r), unit(E, r), forall([k], Implies(inr(k, n()), E.at(r, k) * z3.ToReal(n() - 1) == z3.ToReal(k)), [E.at(r, k)])])}


def estimate(S):
    """every score of every frame (and scene) takes part, and the chosen cutoffs are those of the sorted scores"""
    seen = z3.Function('is a score of the evaluation', z3.RealSort(), z3.BoolSort())
    off = z3.Function('scores before', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())

    def decide(E, tracking, total):
        q = IN + 'DecideScoreCutoffs'

        def req(A):
            W = A[0]
            P = E.A['pds']
            p, pi = E.last_perm
            sc = lambda s, f, k: E.get(E.at(E.at(E.at(P, s), f) if tracking else E.at(P, f), k), 'score')
            ln = lambda s, f: E.len(E.at(E.at(P, s), f)) if tracking else E.len(E.at(P, f))
            return [('sorted', srt(E, W)), ('only scores of the evaluation', forall([i], Implies(inr(i, E.len(W)), seen(E.at(W, i))), [E.at(W, i)])),
                    ('as many as the configuration desires', A[1] == E.get(E.A['config'], 'num_desired_score_cutoffs')),
                    ('every score of every frame', forall([s, f, k], Implies(And(inr(s, E.len(P)) if tracking else s == 0, inr(f, E.len(E.at(P, s)) if tracking else E.len(P)), inr(k, ln(s, f))),
                                                                             And(inr(pi(off(s, f, k)), E.len(W)), E.at(W, pi(off(s, f, k))) == sc(s, f, k))), [sc(s, f, k)]))]
        return {q: Contract(q, requires=req, ensures=lambda A, r, p: [forall([i], Implies(inr(i, E.len(r)), z3.And(chosen(E, r, i))), [E.at(r, i)]), E.len(r) == want(E)])}
    chz = z3.Function('the chosen cutoff', z3.IntSort(), z3.RealSort())
    want = lambda E: z3.Const('number of cutoffs', z3.IntSort())

    def chosen(E, r, i):
        return E.at(r, i) == chz(i)

    def pre(E, A, tracking):
        P = A['pds']
        if tracking:
            sc = lambda: E.get(E.at(E.at(E.at(P, s), f), k), 'score')
            rng = And(inr(s, E.len(P)), inr(f, E.len(E.at(P, s))), inr(k, E.len(E.at(E.at(P, s), f))))
            return [E.len(A['pds']) == E.len(A['gts']), forall([s, f, k], Implies(rng, seen(sc())), [sc()]), forall([s, f], E.len(E.at(E.at(P, s), f)) >= 0, [E.len(E.at(E.at(P, s), f))]), forall([s], E.len(E.at(P, s)) >= 0, [E.len(E.at(P, s))])]
        sc = E.get(E.at(E.at(P, f), k), 'score')
        return [E.len(A['pds']) == E.len(A['gts']), forall([f, k], Implies(And(inr(f, E.len(P)), inr(k, E.len(E.at(P, f)))), seen(sc)), [sc]), forall([f], E.len(E.at(P, f)) >= 0, [E.len(E.at(P, f))])]

    def offs(E, A, tracking):
        P = A['pds']
        o = lambda s, f, k: off(s, f, k)
        # position of a score in the concatenation, in order of scene, frame and prediction
        ln = (lambda s, f: E.len(E.at(E.at(P, s), f))) if tracking else (lambda s, f: E.len(E.at(P, f)))
        ax = [o(I0, I0, I0) == 0, forall([s, f, k], Implies(k >= 0, o(s, f, k + 1) == o(s, f, k) + 1), [o(s, f, k + 1)]),
              forall([s, f], Implies(f >= 0, o(s, f + 1, I0) == o(s, f, ln(s, f))), [o(s, f + 1, I0)])]
        if tracking:
            ax.append(forall([s], Implies(s >= 0, o(s + 1, I0, I0) == o(s, E.len(E.at(P, s)), I0)), [o(s + 1, I0, I0)]))
        return ax

    def got(E, A, V, tracking, s1, f1, k1):
        """V holds exactly the scores before prediction k1 of frame f1 of scene s1"""
        P = A['pds']
        if tracking:
            sc, ln, fr = (lambda: E.get(E.at(E.at(E.at(P, s), f), k), 'score')), E.len(E.at(E.at(P, s), f)), E.len(E.at(P, s))
            before = And(inr(s, E.len(P)), inr(f, fr), inr(k, ln), Or(s < s1, And(s == s1, Or(f < f1, And(f == f1, k < k1)))))
        else:
            sc, ln = (lambda: E.get(E.at(E.at(P, f), k), 'score')), E.len(E.at(P, f))
            before = And(s == 0, inr(f, E.len(P)), inr(k, ln), Or(f < f1, And(f == f1, k < k1)))
        pats = [z3.MultiPattern(sc(), off(s, f, k))] if not tracking else [sc()]
        return [('as many as before', E.len(V) == off(s1, f1, k1)),
                ('only scores of the evaluation', forall([i], Implies(inr(i, E.len(V)), seen(E.at(V, i))), [E.at(V, i)])),
                ('every score so far', forall([s, f, k], Implies(before, And(inr(off(s, f, k), E.len(V)), E.at(V, off(s, f, k)) == sc())), pats))]

    def res(E, A, r):
        """the configuration with the chosen cutoffs"""
        out = [('the chosen cutoffs', And(E.len(E.get(r, 'score_cutoffs')) == want(E), forall([i], Implies(inr(i, want(E)), E.at(E.get(r, 'score_cutoffs'), i) == chz(i)), [E.at(E.get(r, 'score_cutoffs'), i)])))]
        out += same(E, A, r)
        return out

    def same(E, A, r):
        return [('nothing else of the configuration changes', And(*[E.get(r, n) == E.get(A['config'], n) for n, _, _ in E.info(r).fields if n != 'score_cutoffs']))]

    def adds(E, L):
        c = L.v('config_copy')
        cc = E.get(c, 'score_cutoffs')
        return [('copied so far', And(E.len(cc) == L.k, forall([i], Implies(inr(i, L.k), E.at(cc, i) == chz(i)), [E.at(cc, i)])))] + same(E, E.A, c)
    S.fn(NS + 'EstimateScoreCutoffs', label='EstimateScoreCutoffs (detection)', sig='Config &, const std::vector<std::vector<waymo::open_dataset::Object,',
         requires=lambda E, A: pre(E, A, False) + offs(E, A, False) + [E.len(E.get(A['config'], 'score_cutoffs')) == 0, E.get(A['config'], 'num_desired_score_cutoffs') > 0, want(E) >= 0],
         callees=lambda E: decide(E, False, None), ensures=lambda E, A, r, p: res(E, A, r),
         loops={0: lambda E, L: got(E, E.A, L.v('pd_scores'), False, I0, L.v('frame_idx'), I0),
                1: lambda E, L: got(E, E.A, L.v('pd_scores'), False, I0, L.v('frame_idx'), L.v('pd_idx')), 2: adds})
    S.fn(NS + 'EstimateScoreCutoffs', label='EstimateScoreCutoffs (tracking)', sig='std::vector<std::vector<std::vector<waymo::open_dataset::Object,',
         requires=lambda E, A: pre(E, A, True) + offs(E, A, True) + [E.len(A['pds']) > 0, E.len(E.get(A['config'], 'score_cutoffs')) == 0, E.get(A['config'], 'num_desired_score_cutoffs') > 0, want(E) >= 0],
         callees=lambda E: decide(E, True, None), ensures=lambda E, A, r, p: res(E, A, r),
         loops={0: lambda E, L: got(E, E.A, L.v('pd_scores'), True, L.v('scene_idx'), I0, I0),
                1: lambda E, L: got(E, E.A, L.v('pd_scores'), True, L.v('scene_idx'), L.v('frame_idx'), I0),
                2: lambda E, L: got(E, E.A, L.v('pd_scores'), True, L.v('scene_idx'), L.v('frame_idx'), L.v('pd_idx')), 3: adds})

"""C02: contracts on the matchers."""
from spec import *

MT = NS + 'Matcher::'
i, j, k = z3.Ints('spec!i spec!j spec!k')
can = z3.Function('spec_can', z3.IntSort(), z3.IntSort(), z3.BoolSort())          # CanMatch's value on (prediction, ground truth)
wt = z3.Function('spec_weight', z3.IntSort(), z3.IntSort(), z3.IntSort())         # MatchingWeight's value
iouv = z3.Function('spec_iou', z3.IntSort(), z3.IntSort(), z3.RealSort())
affv = z3.Function('spec_aff', z3.IntSort(), z3.IntSort(), z3.RealSort())


def preds(E, M):
    return E.get(E.get(M, 'predictions_'), 'val')


def gts(E, M):
    return E.get(E.get(M, 'ground_truths_'), 'val')


def setup(E, A):
    """SetPredictions/SetGroundTruths were called, and the subsets hold indices of them"""
    M = A['this']
    P, G = preds(E, M), gts(E, M)
    ps, gs = E.get(M, 'prediction_subset_'), E.get(M, 'ground_truth_subset_')
    return [E.get(E.get(M, 'predictions_'), 'has'), E.get(E.get(M, 'ground_truths_'), 'has'),
            forall([i], Implies(inr(i, E.len(ps)), inr(E.at(ps, i), E.len(P))), [E.at(ps, i)]),
            forall([i], Implies(inr(i, E.len(gs)), inr(E.at(gs, i), E.len(G))), [E.at(gs, i)])]


def indices(E, A):
    M = A['this']
    return [E.get(E.get(M, 'predictions_'), 'has'), E.get(E.get(M, 'ground_truths_'), 'has'),
            inr(A[0], E.len(preds(E, M))), inr(A[1], E.len(gts(E, M)))]


def otype(E, v, n):
    return g(E, E.at(v, n), 'object.type')


def cache_inv(E, M, field, f):
    c = E.get(M, field)
    P, G = preds(E, M), gts(E, M)
    return Or(E.len(c) == 0, And(E.len(c) == E.len(P),
              forall([i], Implies(inr(i, E.len(c)), E.len(E.at(c, i)) == E.len(G)), [E.at(c, i)]),
              forall([i, j], Implies(And(inr(i, E.len(c)), inr(j, E.len(G))), Or(E.at(E.at(c, i), j) < 0, E.at(E.at(c, i), j) == f(i, j))), [E.at(E.at(c, i), j)])))


def same_but(E, M0, M1, field):
    return And(*[E.get(M0, n) == E.get(M1, n) for n, _, _ in E.info(M0).fields if n != field])


def pair_values(E, M, f):
    """f on a pair is 0 for different types, and in [0, 1]"""
    P, G = preds(E, M), gts(E, M)
    return [forall([i, j], And(f(i, j) >= 0, f(i, j) <= 1, Implies(otype(E, P, i) != otype(E, G, j), f(i, j) == 0)), [f(i, j)])]


def matching(E, A, post, M, pm, gm):
    """the documented result: sizes, -1 for unmatched, the two directions agree, only pairs that can match"""
    ps, gs = E.get(M, 'prediction_subset_'), E.get(M, 'ground_truth_subset_')
    out = []
    if pm is not None:
        out += [('one entry per prediction of the subset', E.len(pm) == E.len(ps)),
                ('prediction entries are -1 or a ground truth of the subset that can match',
                 forall([i], Implies(inr(i, E.len(ps)), Or(E.at(pm, i) == -1, And(inr(E.at(pm, i), E.len(gs)), can(E.at(ps, i), E.at(gs, E.at(pm, i)))))), [E.at(pm, i)]))]
    if gm is not None:
        out += [('one entry per ground truth of the subset', E.len(gm) == E.len(gs)),
                ('ground-truth entries are -1 or a prediction of the subset that can match',
                 forall([j], Implies(inr(j, E.len(gs)), Or(E.at(gm, j) == -1, And(inr(E.at(gm, j), E.len(ps)), can(E.at(ps, E.at(gm, j)), E.at(gs, j))))), [E.at(gm, j)]))]
    if pm is not None and gm is not None:
        out += [('the two directions agree (so the matching is one-to-one)',
                 And(forall([i], Implies(And(inr(i, E.len(ps)), E.at(pm, i) != -1), E.at(gm, E.at(pm, i)) == i), [E.at(pm, i)]),
                     forall([j], Implies(And(inr(j, E.len(gs)), E.at(gm, j) != -1), E.at(pm, E.at(gm, j)) == j), [E.at(gm, j)])))]
    return out


def pure(E):
    """callee contracts: CanMatch and MatchingWeight only touch the caches"""
    def can_c(A, r, p):
        return [r == can(A[0], A[1])]

    def w_c(A, r, p):
        return [r == wt(A[0], A[1]), r >= 0]
    return {MT + 'CanMatch': Contract(MT + 'CanMatch', requires=lambda A: indices(E, A), ensures=can_c),
            MT + 'MatchingWeight': Contract(MT + 'MatchingWeight', requires=lambda A: indices(E, A), ensures=w_c)}


def hungarian(E):
    """C01's contract: the result is a permutation"""
    def post(A, r, p):
        pm = p['perm']
        inv = E.func('spec_inv_perm', z3.IntSort(), z3.IntSort())
        n = A['n']
        return [E.len(pm) == E.len(A['perm']),
                forall([i], Implies(inr(i, n), And(inr(E.at(pm, i), n), inv(E.at(pm, i)) == i)), [E.at(pm, i)]),
                forall([j], Implies(inr(j, n), And(inr(inv(j), n), E.at(pm, inv(j)) == j)), [inv(j)])]

    def pre(A):
        return [A['n'] > 0, E.len(A['edge']) >= A['n'] * A['n'], E.len(A['perm']) >= A['n'],
                ('non-negative weights', forall([i, j], Implies(And(inr(i, A['n']), inr(j, A['n'])), E.at(A['edge'], i * A['n'] + j) >= 0)))]
    return {NS + 'Hungarian': Contract(NS + 'Hungarian', args=('n', 'edge', 'perm'), modifies=('perm',), requires=pre, ensures=post)}


def build(S):
    f1 = lambda E, A: indices(E, A)
    S.fn(MT + 'ValidPredictionIndex', requires=indices_p)
    S.fn(MT + 'ValidGroundTruthIndex', requires=indices_g)

    def box(E, v, n):
        return g(E, E.at(v, n), 'object.box')
    # IoU with its cache
    def iou_req(E, A):
        M = A['this']
        return indices(E, A) + pair_values(E, M, iouv) + [cache_inv(E, M, 'iou_caches_', iouv), Not(E.get(E.get(M, 'custom_iou_func_'), 'set'))]

    def iou_callee(E):
        q = NS + 'ComputeIoU'
        # ties spec_iou to ComputeIoU on pairs of equal type
        def ens(A, r, p):
            M = E.A['this']
            P, G = preds(E, M), gts(E, M)
            return [forall([i, j], Implies(And(inr(i, E.len(P)), inr(j, E.len(G)), A[0] == box(E, P, i), A[1] == box(E, G, j), otype(E, P, i) == otype(E, G, j)), r == iouv(i, j)),
                           [iouv(i, j)]), r == iouv(E.A[0], E.A[1])]
        return {q: Contract(q, requires=lambda A: [('on the boxes of the two objects', And(
            A[0] == box(E, preds(E, E.A['this']), E.A[0]), A[1] == box(E, gts(E, E.A['this']), E.A[1]),
            otype(E, preds(E, E.A['this']), E.A[0]) == otype(E, gts(E, E.A['this']), E.A[1]), A[2] == E.get(E.A['this'], 'box_type_')))], ensures=ens)}
    S.fn(MT + 'IoU', requires=iou_req, callees=iou_callee, ensures=lambda E, A, r, p: [
        ('the IoU of the pair: 0 for different types, else that of the boxes', r == iouv(A[0], A[1])),
        ('the cache stays correct', cache_inv(E, p['this'], 'iou_caches_', iouv)), ('only the cache changes', same_but(E, A['this'], p['this'], 'iou_caches_'))])

    def iou_c(E):
        return {MT + 'IoU': Contract(MT + 'IoU', requires=lambda A: indices(E, A), ensures=lambda A, r, p: [r == iouv(A[0], A[1]), r >= 0, r <= 1])}
    nocustom = lambda E, M: [Not(E.get(E.get(M, f), 'set')) for f in ('custom_can_match_func_', 'custom_matching_weight_func_')]

    def can_req(E, A):
        M = A['this']
        t = otype(E, preds(E, M), A[0])
        return indices(E, A) + nocustom(E, M) + [t >= 1, t <= 4, E.len(E.get(M, 'iou_thresholds_')) == 5]
    S.fn(MT + 'CanMatch', requires=can_req, callees=iou_c, ensures=lambda E, A, r, p: [
        ('iff the IoU reaches the threshold of the prediction type', r == (iouv(A[0], A[1]) >= E.at(E.get(A['this'], 'iou_thresholds_'), otype(E, preds(E, A['this']), A[0]))))])
    S.fn(MT + 'MatchingWeight', requires=lambda E, A: indices(E, A) + nocustom(E, A['this']), callees=iou_c, ensures=lambda E, A, r, p: [
        ('the IoU in millionths, rounded', And(r - iouv(A[0], A[1]) * 1000000 <= z3.RealVal('1/2'), iouv(A[0], A[1]) * 1000000 - r <= z3.RealVal('1/2'))), ('in [0, kMaxIoU]', And(r >= 0, r <= 1000000))])

    # --- the matchers
    hq = NS + 'HungarianMatcher::Match'
    nullcases = [((), 'both'), (('ground_truth_matches',), 'predictions only'), (('prediction_matches',), 'ground truths only')]
    for nul, nm in nullcases:
        def hens(E, A, r, p, nul=nul):
            pm = None if 'prediction_matches' in nul else p['prediction_matches']
            gm = None if 'ground_truth_matches' in nul else p['ground_truth_matches']
            return matching(E, A, p, A['this'], pm, gm)

        def l0(E, L):
            e, n, ps, gs = L.v('edge'), L.v('num_vertices'), E.get(L.v('this'), 'prediction_subset_'), E.get(L.v('this'), 'ground_truth_subset_')
            return e, n, ps, gs

        def nonneg(E, L):
            e = L.v('edge')
            return [('edge size', E.len(e) == L.v('num_vertices') * L.v('num_vertices')),
                    ('edges non-negative', forall([k], E.at(e, k) >= 0, [E.at(e, k)]))]

        def fill(E, L, nul=nul):
            M = E.A['this']
            ps, gs = E.get(M, 'prediction_subset_'), E.get(M, 'ground_truth_subset_')
            m, n = L.v('matching'), L.v('i')
            out = []
            pm = L.v('prediction_matches') if 'prediction_matches' not in nul else None
            gm = L.v('ground_truth_matches') if 'ground_truth_matches' not in nul else None
            G, P = E.len(gs), E.len(ps)
            ok = lambda x: And(E.at(m, x) < G, can(E.at(ps, x), E.at(gs, E.at(m, x))))
            inv = E.func('spec_inv_perm', z3.IntSort(), z3.IntSort())
            if pm is not None:
                out += [('pm size', E.len(pm) == P), ('pm done', forall([i], Implies(inr(i, n), E.at(pm, i) == If(ok(i), E.at(m, i), z3.IntVal(-1))), [E.at(pm, i)]))]
            if gm is not None:
                out += [('gm size', E.len(gm) == G),
                        ('gm done', forall([j], Implies(inr(j, G), E.at(gm, j) == If(And(inv(j) < n, can(E.at(ps, inv(j)), E.at(gs, j))), inv(j), z3.IntVal(-1))), [E.at(gm, j)]))]
            return out
        S.fn(hq, label='HungarianMatcher::Match (%s)' % nm, requires=setup, nullable=nul, ensures=hens,
             callees=lambda E: dict(pure(E), **hungarian(E)), loops={0: nonneg, 1: nonneg, 2: fill})


    score_first(S)


def score_first(S):
    def parts(E, L):
        M = E.A['this']
        ps, gs = E.get(M, 'prediction_subset_'), E.get(M, 'ground_truth_subset_')
        return ps, gs, L.v('prediction_matches'), L.v('ground_truth_matches'), (lambda a, b: can(E.at(ps, a), E.at(gs, b))), (lambda a, b: wt(E.at(ps, a), E.at(gs, b)))

    def base(E, L, done):
        ps, gs, pm, gm, C, W = parts(E, L)
        p, pi = E.last_perm
        P, G = E.len(ps), E.len(gs)
        return [('sizes', And(E.len(pm) == P, E.len(gm) == G, E.len(L.v('sorted_pred_subset_idx')) == P)),
                ('pm valid', forall([i], Implies(inr(i, P), Or(E.at(pm, i) == -1, And(inr(E.at(pm, i), G), pi(i) < done, C(i, E.at(pm, i)), E.at(gm, E.at(pm, i)) == i))), [E.at(pm, i)])),
                ('gm valid', forall([j], Implies(inr(j, G), Or(E.at(gm, j) == -1, And(inr(E.at(gm, j), P), E.at(pm, E.at(gm, j)) == j))), [E.at(gm, j)])),
                ('greedy', forall([i, j], Implies(And(inr(i, P), inr(j, G), pi(i) < done, C(i, j), Or(E.at(pm, i) == -1, W(i, j) > W(i, E.at(pm, i)))),
                                                  And(E.at(gm, j) != -1, pi(E.at(gm, j)) < pi(i))), [z3.MultiPattern(E.at(pm, i), E.at(gm, j))]))]

    def outer(E, L):
        return base(E, L, L.k)

    def inner(E, L):
        ps, gs, pm, gm, C, W = parts(E, L)
        a, n, b, bw = L.v('pd_subset_idx'), L.v('gt_subset_idx'), L.v('best_gt_match'), L.v('best_gt_match_weight')
        free = lambda x: And(E.at(gm, x) == -1, C(a, x))
        return [('best', Or(And(b == -1, bw == -1, forall([j], Implies(inr(j, n), Not(free(j))), [E.at(gm, j)])),
                            And(inr(b, n), free(b), bw == W(a, b), bw >= 0, forall([j], Implies(And(inr(j, n), free(j)), W(a, j) <= bw), [E.at(gm, j)]))))]

    def ens(E, A, r, p):
        M = A['this']
        pm, gm = p['prediction_matches'], p['ground_truth_matches']
        ps, gs = E.get(M, 'prediction_subset_'), E.get(M, 'ground_truth_subset_')
        sc = lambda a: g(E, E.at(preds(E, M), E.at(ps, a)), 'score')
        C, W = (lambda a, b: can(E.at(ps, a), E.at(gs, b))), (lambda a, b: wt(E.at(ps, a), E.at(gs, b)))
        return matching(E, A, p, M, pm, gm) + [
            ('a prediction misses a better ground truth only to a prediction of at least its score',
             forall([i, j], Implies(And(inr(i, E.len(ps)), inr(j, E.len(gs)), C(i, j), Or(E.at(pm, i) == -1, W(i, j) > W(i, E.at(pm, i)))),
                                    And(E.at(gm, j) != -1, sc(E.at(gm, j)) >= sc(i)))))]
    S.fn(NS + 'ScoreFirstMatcher::Match', requires=setup, ensures=ens, callees=pure, loops={0: outer, 1: inner})


def indices_p(E, A):
    return [E.get(E.get(A['this'], 'predictions_'), 'has'), inr(A[0], E.len(preds(E, A['this'])))]


def indices_g(E, A):
    return [E.get(E.get(A['this'], 'ground_truths_'), 'has'), inr(A[0], E.len(gts(E, A['this'])))]

"""C11: contracts on the multi-object tracking evaluator (mot.cc)."""
from spec import *
from wodvc.cxxsorts import STR
from wodvc.cxx import FALSE
import c02
import c08

MT = c02.MT
MO = NS + 'MOT::'
can, iouv = c02.can, c02.iouv
i, j, k = z3.Ints('spec!i spec!j spec!k')


def dom(E, m, x):
    return z3.Select(E.get(m, 'dom'), x)


def val(E, m, x):
    return z3.Select(E.get(m, 'val'), x)


def card(E, m):
    return E.get(m, 'card')


def sx(E, n='x'):
    """a string variable"""
    return z3.Const('spec!s' + n, STR)


def pid(E, M, n):
    return g(E, E.at(c02.preds(E, M), n), 'object.id')


def gid(E, M, n):
    return g(E, E.at(c02.gts(E, M), n), 'object.id')


def ps(E, M):
    return E.get(M, 'prediction_subset_')


def gs(E, M):
    return E.get(M, 'ground_truth_subset_')


def unique(E, M):
    """no two ground truths of the subset share an id (duplicates are documented to be fatal)"""
    a, b = E.at(gs(E, M), i), E.at(gs(E, M), j)
    return forall([i, j], Implies(And(inr(i, E.len(gs(E, M))), inr(j, E.len(gs(E, M))), gid(E, M, a) == gid(E, M, b)), i == j), [z3.MultiPattern(a, b)])


def inverse(E, T):
    """the two maps of the evaluator are inverses of each other: the correspondence is one-to-one"""
    gp, pg = E.get(T, 'gt_pd_matchings_'), E.get(T, 'pd_gt_matchings_')
    x = sx(E)
    return [('every ground-truth track has its prediction', forall([x], Implies(dom(E, gp, x), And(dom(E, pg, val(E, gp, x)), val(E, pg, val(E, gp, x)) == x)), [dom(E, gp, x)])),
            ('every predicted track has its ground truth', forall([x], Implies(dom(E, pg, x), And(dom(E, gp, val(E, pg, x)), val(E, gp, val(E, pg, x)) == x)), [dom(E, pg, x)]))]


def mapok(E, m, sub, ident):
    """a map from ids to positions in the subset"""
    x = sx(E)
    return [card(E, m) >= 0, card(E, m) <= E.len(sub), forall([x], Implies(dom(E, m, x), And(inr(val(E, m, x), E.len(sub)), ident(E.at(sub, val(E, m, x))) == x)), [dom(E, m, x)])]


def maps(E, A, M):
    return mapok(E, A['pd_map'], ps(E, M), lambda n: pid(E, M, n)) + mapok(E, A['gt_map'], gs(E, M), lambda n: gid(E, M, n))


def same(E, a, b, but=()):
    return And(*[E.get(a, n) == E.get(b, n) for n, _, _ in E.info(a).fields if n not in but])


# ---- counting over matches ---------------------------------------------------------------
class Count:
    """sums over the first n entries of a list of matches v of subset u"""
    def __init__(self, E, P, G):
        I, V, R_ = z3.IntSort(), E.S.vec('int'), z3.RealSort()
        f = lambda n, *s: E.func('spec_count_' + n, *s)
        self.E = E
        self.tp, self.fp, self.nl = f('matched', V, I, I), f('false positives', V, V, I, I), f('in no-label zones', V, V, I, I)
        self.fn, self.ab, self.cost = f('misses', V, V, I, I, I), f('beyond', V, V, I, I, I), f('cost', V, V, V, I, R_)
        v, u, w, l = z3.Const('spec!v', V), z3.Const('spec!u', V), z3.Const('spec!w', V), z3.Int('spec!l')
        one = lambda c: If(c, z3.IntVal(1), I0)
        nlz = lambda n: E.get(E.at(P, n), 'overlap_with_nlz')
        dl = lambda n: g(E, E.at(G, n), 'object.tracking_difficulty_level')
        a, b = E.at(v, k), E.at(u, k)
        pats = [z3.MultiPattern(a, b)]

        def ax(vs, fn, args, step, pat, zero=I0):
            t = fn(*(args + [I0]))
            return [forall(vs, t == zero, [t]), forall(vs + [k], Implies(k >= 0, fn(*(args + [k + 1])) == fn(*(args + [k])) + step), [pat])]
        cnt = lambda fn, args: fn(*(args + [k]))
        self.axioms = (ax([v], self.tp, [v], one(a >= 0), a) + ax([v, u], self.fp, [v, u], one(And(a < 0, Not(nlz(b)))), z3.MultiPattern(cnt(self.fp, [v, u]), a)) +
                       ax([v, u], self.nl, [v, u], one(And(a < 0, nlz(b))), z3.MultiPattern(cnt(self.nl, [v, u]), a)) +
                       ax([v, u, l], self.fn, [v, u, l], one(And(a < 0, dl(b) <= l)), z3.MultiPattern(cnt(self.fn, [v, u, l]), a)) +
                       ax([v, u, l], self.ab, [v, u, l], one(And(a < 0, dl(b) > l)), z3.MultiPattern(cnt(self.ab, [v, u, l]), a)) +
                       ax([v, u, w], self.cost, [v, u, w], If(a >= 0, 1 - iouv(b, E.at(w, a)), R(0)), z3.MultiPattern(cnt(self.cost, [v, u, w]), a), R(0)))


def counting(E, M):
    return Count(E, c02.preds(E, M), c02.gts(E, M))


def build(S):
    index_maps(S)
    keep(S)
    match(S)
    switches(S)
    frame(S)
    lemmas(S)


def lemmas(S):
    """mutually inverse partial maps match equally many elements on both sides (two inductions)"""
    I = z3.IntSort()
    pm, gm = z3.Function('pm', I, I), z3.Function('gm', I, I)
    F, C = z3.Function('ground truths matched to the first n predictions, among the first m', I, I, I), z3.Function('matched among the first n predictions', I, I)
    n, m, N, M = z3.Ints('n m N M')
    one = lambda c: If(c, z3.IntVal(1), I0)
    inv = [forall([i], Implies(inr(i, N), Or(pm(i) == -1, And(inr(pm(i), M), gm(pm(i)) == i))), [pm(i)]), forall([j], Implies(inr(j, M), Or(gm(j) == -1, And(inr(gm(j), N), pm(gm(j)) == j))), [gm(j)])]
    F0 = lambda a: F(a, I0) == 0
    Fs = lambda a, b: F(a, b + 1) == F(a, b) + one(And(gm(b) >= 0, gm(b) < a))
    lhs = lambda a, b: F(a + 1, b) == F(a, b) + one(And(pm(a) >= 0, pm(a) < b))
    S.lemma('one more prediction: no ground truths', inv + [inr(n, N), F0(n), F0(n + 1)], lhs(n, I0))
    S.lemma('one more prediction: one more ground truth', inv + [inr(n, N), inr(m, M), Fs(n, m), Fs(n + 1, m), lhs(n, m), pm(n) == pm(n), gm(m) == gm(m)], lhs(n, m + 1))
    S.lemma('as many matches on both sides: no predictions', inv + [F0(I0), inr(m, M), F(I0, m) == 0, Fs(I0, m)], F(I0, m + 1) == 0)
    S.lemma('as many matches on both sides: one more prediction', inv + [inr(n, N), M >= 0, lhs(n, M), F(n, M) == C(n), C(n + 1) == C(n) + one(pm(n) >= 0), pm(n) == pm(n)], F(n + 1, M) == C(n + 1))
    S.lemma('all ground truths counted', inv + [inr(m, M), F(N, m) == C(m), Fs(N, m), C(m + 1) == C(m) + one(gm(m) >= 0)], F(N, m + 1) == C(m + 1))


def index_maps(S):
    q = ANON + 'BuildTrackingIdToDetectionBoxIndexMaps'

    def side(E, A, m, n, sub, ident, first):
        x = sx(E)
        at = lambda a: ident(E.at(sub, a))
        return [('every id has an entry', forall([i], Implies(inr(i, n), And(dom(E, m, at(i)), (val(E, m, at(i)) <= i) if first else (val(E, m, at(i)) == i))), [E.at(sub, i)])),
                ('every entry is a position with that id', forall([x], Implies(dom(E, m, x), And(inr(val(E, m, x), n), at(val(E, m, x)) == x)), [dom(E, m, x)])),
                ('as many entries as ids', And(card(E, m) >= 0, card(E, m) <= n) if first else card(E, m) == n)]
    P = lambda E, A, m, n: side(E, A, m, n, ps(E, A['matcher']), lambda a: pid(E, A['matcher'], a), True)
    G = lambda E, A, m, n: side(E, A, m, n, gs(E, A['matcher']), lambda a: gid(E, A['matcher'], a), False)

    def empty(E, m):
        x = sx(E)
        return [card(E, m) == 0, forall([x], Not(dom(E, m, x)), [dom(E, m, x)])]

    def distinct(E, A):
        M = A['matcher']
        a, b = E.at(ps(E, M), i), E.at(ps(E, M), j)
        n = E.len(ps(E, M))
        return forall([i, j], Implies(And(inr(i, n), inr(j, n), pid(E, M, a) == pid(E, M, b)), i == j), [z3.MultiPattern(a, b)])
    S.fn(q, requires=lambda E, A: c02.setup(E, {'this': A['matcher']}) + [unique(E, A['matcher'])] + empty(E, A['pd_map']) + empty(E, A['gt_map']),
         loops={0: lambda E, L: P(E, E.A, L.v('pd_map'), L.v('i')) + [('distinct ids', Implies(distinct(E, E.A), card(E, L.v('pd_map')) == L.v('i')))], 1: lambda E, L: G(E, E.A, L.v('gt_map'), L.v('i'))},
         ensures=lambda E, A, r, p: [('predictions: ' + n, f) for n, f in P(E, A, p['pd_map'], E.len(ps(E, A['matcher'])))] + [('ground truths: ' + n, f) for n, f in G(E, A, p['gt_map'], E.len(gs(E, A['matcher'])))] + [
             ('distinct predictions are all there', Implies(distinct(E, A), card(E, p['pd_map']) == E.len(ps(E, A['matcher']))))])


def kept(E, A, M):
    """the correspondences of earlier frames that still hold in this frame"""
    T = A['this']
    gp, pm, gm = E.get(T, 'gt_pd_matchings_'), A['pd_map'], A['gt_map']
    return lambda x: And(dom(E, gp, x), dom(E, pm, val(E, gp, x)), dom(E, gm, x), can(E.at(ps(E, M), val(E, pm, val(E, gp, x))), E.at(gs(E, M), val(E, gm, x))))


def keep_post(E, A, N, P1, G1, T1, upto=None):
    """what InitializeNewMapping returns (N) and leaves of the two maps; upto(x): the old pair was visited"""
    T, M = A['this'], A['matcher']
    gp, pg = E.get(T, 'gt_pd_matchings_'), E.get(T, 'pd_gt_matchings_')
    h = kept(E, A, M)
    kp = (lambda x: And(h(x), upto(x))) if upto else h
    x = sx(E)
    P0, G0 = A['pd_map'], A['gt_map']
    return [('exactly the pairs that still hold are kept', forall([x], dom(E, N, x) == kp(x), [dom(E, N, x)])),
            ('with the same prediction', forall([x], Implies(dom(E, N, x), val(E, N, x) == val(E, gp, x)), [dom(E, N, x)])),
            ('their predictions are used up', forall([x], dom(E, P1, x) == And(dom(E, P0, x), Not(And(dom(E, pg, x), kp(val(E, pg, x))))), [dom(E, P1, x)])),
            ('their ground truths are used up', forall([x], dom(E, G1, x) == And(dom(E, G0, x), Not(kp(x))), [dom(E, G1, x)])),
            ('positions stay', And(E.get(P1, 'val') == E.get(P0, 'val'), E.get(G1, 'val') == E.get(G0, 'val'))),
            ('counts', And(card(E, P1) == card(E, P0) - card(E, N), card(E, G1) == card(E, G0) - card(E, N), card(E, N) >= 0)),
            ('only the cost changes', And(same(E, T1, T, ('measurement_',)), same(E, E.get(T1, 'measurement_'), E.get(T, 'measurement_'), ('matching_cost', 'has_matching_cost'))))]


def costs(E):
    return E.func('spec_cost of the first pairs', z3.IntSort(), z3.RealSort())


def keep(S):
    def cal(E):
        c = c08.iou_c(E)
        c[MT + 'CanMatch'] = c02.pure(E)[MT + 'CanMatch']
        return c

    def define(E, enum, t, n):
        A, M = E.A, E.A['matcher']
        gp = E.get(A['this'], 'gt_pd_matchings_')
        h = kept(E, A, M)
        f = costs(E)
        x = enum(k)
        pi, gi = E.at(ps(E, M), val(E, A['pd_map'], val(E, gp, x))), E.at(gs(E, M), val(E, A['gt_map'], x))
        return [f(I0) == 0, forall([k], Implies(k >= 0, f(k + 1) == f(k) + If(h(x), 1 - iouv(pi, gi), R(0))), [enum(k)])]

    def inv(E, L):
        gp = E.get(E.A['this'], 'gt_pd_matchings_')
        return keep_post(E, E.A, L.v('gt_pd_new_matchings'), L.v('pd_map'), L.v('gt_map'), L.v('this'), lambda x: And(L.idx(x) < L.k)) + [
            ('cost', g(E, L.v('this'), 'measurement_.matching_cost') == g(E, E.A['this'], 'measurement_.matching_cost') + costs(E)(L.k))]
    S.fn(MO + 'InitializeNewMapping', opts=dict(on_enum=define), requires=lambda E, A: c02.setup(E, {'this': A['matcher']}) + [f for _, f in inverse(E, A['this'])] + maps(E, A, A['matcher']) + [card(E, E.get(A['this'], 'gt_pd_matchings_')) >= 0],
         callees=cal, loops={0: inv}, ensures=lambda E, A, r, p: keep_post(E, A, r, p['pd_map'], p['gt_map'], p['this']) + [
             ('cost', g(E, p['this'], 'measurement_.matching_cost') == g(E, A['this'], 'measurement_.matching_cost') + costs(E)(card(E, E.get(A['this'], 'gt_pd_matchings_'))))])


PM = lambda E: z3.Const('matches of the predictions', E.S.vec('int'))
GM = lambda E: z3.Const('matches of the ground truths', E.S.vec('int'))


def match(S):
    def result(E, A, R_, u, w, n):
        """the result after the first n predictions: pairs of ids for the matched ones; u, w: subsets"""
        pass

    def cal(E):
        c = c08.iou_c(E)
        q = MT + 'Match'

        def ens(A, r, p):
            pm, gm = p['prediction_matches'], p['ground_truth_matches']
            C = counting(E, A['this'])
            # the last one is what the counting lemmas below show for mutually inverse matches
            return [f for _, f in c02.matching(E, A, p, A['this'], pm, gm)] + [pm == PM(E), gm == GM(E), C.tp(pm, E.len(pm)) == C.tp(gm, E.len(gm))]
        c[q] = Contract(q, args=('prediction_matches', 'ground_truth_matches'), modifies=('prediction_matches', 'ground_truth_matches'),
                        requires=lambda A: [('set up', And(*c02.setup(E, A)))], ensures=ens)
        return c

    def pick(E, L, var, m, sub):
        u = L.v(var)
        return [('taken so far', And(E.len(u) == L.k, forall([i], Implies(inr(i, L.k), And(dom(E, m, L.enum(i)), E.at(u, i) == E.at(sub, val(E, m, L.enum(i))))), [E.at(u, i)])))]

    def l0(E, L):
        E.pdorder = (L.enum, L.idx)
        return pick(E, L, 'pds_unmatched', E.A['pd_map'], ps(E, E.A['matcher']))

    def l1(E, L):
        E.gtorder = (L.enum, L.idx)
        return pick(E, L, 'gts_unmatched', E.A['gt_map'], gs(E, E.A['matcher']))

    def graph(E, R_, gm, n):
        """the first n predictions' pairs are in the result"""
        x = sx(E)
        ep, eg = E.pdorder[0], E.gtorder[1]
        m = E.at(gm, eg(x))
        has = And(dom(E, E.A['gt_map'], x), m >= 0, m < n)
        return [('the result is the matched pairs', forall([x], And(dom(E, R_, x) == has, Implies(has, val(E, R_, x) == ep(m))), [dom(E, R_, x)]))]

    def counts(E, T, res, L, n):
        M = L.v('matcher')
        C = counting(E, M)
        u, w = ps(E, M), gs(E, M)
        return C, u, w, [('false positives', E.get(res, 'num_fps') == C.fp(PM(E), u, n)),
                         ('cost', g(E, T, 'measurement_.matching_cost') == g(E, E.A['this'], 'measurement_.matching_cost') + C.cost(PM(E), u, w, n)),
                         ('matched', And(card(E, E.get(res, 'gt_pd_matchings')) == C.tp(PM(E), n), C.tp(PM(E), n) + C.fp(PM(E), u, n) + C.nl(PM(E), u, n) == n, C.fp(PM(E), u, n) >= 0, C.nl(PM(E), u, n) >= 0)),
                         ('only the cost changes', And(same(E, T, E.A['this'], ('measurement_',)), same(E, E.get(T, 'measurement_'), E.get(E.A['this'], 'measurement_'), ('matching_cost', 'has_matching_cost'))))]

    def l2(E, L):
        res, n = L.v('result'), L.v('i')
        _, _, _, out = counts(E, L.v('this'), res, L, n)
        return out + graph(E, E.get(res, 'gt_pd_matchings'), GM(E), n) + [('misses not counted yet', And(E.get(res, 'num_fns') == 0, E.get(res, 'num_fns_above_difficulty_level') == 0))]

    def misses(E, L, res, n):
        M = L.v('matcher')
        C = counting(E, M)
        w, l = gs(E, M), E.A['difficulty_level']
        return [('misses', And(E.get(res, 'num_fns') == C.fn(GM(E), w, l, n), E.get(res, 'num_fns') >= 0)),
                ('beyond the level', And(E.get(res, 'num_fns_above_difficulty_level') == C.ab(GM(E), w, l, n), E.get(res, 'num_fns_above_difficulty_level') >= 0)),
                ('every ground truth counted once', C.tp(GM(E), n) + C.fn(GM(E), w, l, n) + C.ab(GM(E), w, l, n) == n)]

    def l3(E, L):
        res, n = L.v('result'), L.v('i')
        _, _, _, out = counts(E, L.v('this'), res, L, E.len(PM(E)))
        return out + misses(E, L, res, n) + graph(E, E.get(res, 'gt_pd_matchings'), GM(E), E.len(PM(E)))

    def minv(E, y):
        """the ground truth matched to prediction y"""
        return E.gtorder[0](E.at(PM(E), E.pdorder[1](y)))

    def l4(E, L):
        y = sx(E, 'y')
        R_ = E.get(L.v('result'), 'gt_pd_matchings')
        z = minv(E, y)
        x = sx(E)
        return [('matched predictions lead back', forall([x], Implies(dom(E, R_, x), minv(E, val(E, R_, x)) == x), [dom(E, R_, x)])),
                ('ids seen so far', forall([y], Implies(dom(E, L.v('pd_ids'), y), And(dom(E, R_, z), val(E, R_, z) == y, L.idx(z) < L.k)), [dom(E, L.v('pd_ids'), y)]))]

    def req(E, A):
        M = A['matcher']
        return c02.setup(E, {'this': M}) + maps(E, A, M) + counting(E, M).axioms

    def ens(E, A, r, p):
        M0, M1 = A['matcher'], p['matcher']
        return match_post(E, A, r, p) + [('cost', g(E, p['this'], 'measurement_.matching_cost') == g(E, A['this'], 'measurement_.matching_cost') + counting(E, M1).cost(PM(E), ps(E, M1), gs(E, M1), E.len(PM(E)))),
            ('misses', E.get(r, 'num_fns') == counting(E, M1).fn(GM(E), gs(E, M1), A['difficulty_level'], E.len(GM(E)))),
            ('false positives', E.get(r, 'num_fps') == counting(E, M1).fp(PM(E), ps(E, M1), E.len(PM(E))))]
    S.fn(MO + 'Match', requires=req, callees=cal, loops={0: l0, 1: l1, 2: l2, 3: l3, 4: l4}, ensures=ens)


def match_post(E, A, r, p):
    """what the caller of MOT::Match relies on"""
    M0, M1 = A['matcher'], p['matcher']
    R_ = E.get(r, 'gt_pd_matchings')
    x, y = sx(E), sx(E, 'y')
    P, G = A['pd_map'], A['gt_map']
    C = counting(E, M0)
    u = ps(E, M1)
    return [('only free tracks are matched', forall([x], Implies(dom(E, R_, x), And(dom(E, G, x), dom(E, P, val(E, R_, x)))), [dom(E, R_, x)])),
            ('only pairs that can match', forall([x], Implies(dom(E, R_, x), can(E.at(ps(E, M0), val(E, P, val(E, R_, x))), E.at(gs(E, M0), val(E, G, x)))), [dom(E, R_, x)])),
            ('one-to-one', forall([x, y], Implies(And(dom(E, R_, x), dom(E, R_, y), val(E, R_, x) == val(E, R_, y)), x == y), [z3.MultiPattern(dom(E, R_, x), dom(E, R_, y))])),
            ('matches plus misses are the ground truths that count', card(E, R_) + E.get(r, 'num_fns') + E.get(r, 'num_fns_above_difficulty_level') == card(E, G)),
            ('matches plus false positives are the predictions, but for unmatched ones in no-label zones', card(E, R_) + E.get(r, 'num_fps') + C.nl(PM(E), u, E.len(u)) == card(E, P)),
            ('counts are not negative', And(E.get(r, 'num_fps') >= 0, E.get(r, 'num_fns') >= 0, E.get(r, 'num_fns_above_difficulty_level') >= 0, card(E, R_) >= 0, C.nl(PM(E), u, E.len(u)) >= 0)),
            ('subsets are the free tracks', And(E.len(ps(E, M1)) == card(E, P), E.len(gs(E, M1)) == card(E, G), same(E, M1, M0, ('prediction_subset_', 'ground_truth_subset_')))),
            ('the free tracks are of the frame', And(*c02.setup(E, {'this': M1})[2:])),
            ('only the cost changes', And(same(E, p['this'], A['this'], ('measurement_',)), same(E, E.get(p['this'], 'measurement_'), E.get(A['this'], 'measurement_'), ('matching_cost', 'has_matching_cost'))))]


def trig(E, T, new, here):
    """the two kinds of identity switch of a new pair; here(g): ground truth g is in the frame"""
    gp, pg = E.get(T, 'gt_pd_matchings_'), E.get(T, 'pd_gt_matchings_')
    sw = lambda x: And(dom(E, gp, x), val(E, gp, x) != val(E, new, x))
    ev = lambda x: And(dom(E, pg, val(E, new, x)), Not(here(val(E, pg, val(E, new, x)))))
    return sw, ev


def switches(S):
    one = lambda c: If(c, z3.IntVal(1), I0)
    f = lambda E: E.func('spec_switches of the first pairs', z3.IntSort(), z3.IntSort())

    def kinds(E):
        A = E.A
        return trig(E, A['this'], A['gt_pd_new_matchings'], lambda y: Or(dom(E, A['gt_map'], y), dom(E, A['gt_pd_new_matchings'], y)))

    def define(E, enum, t, n):
        sw, ev = kinds(E)
        return [f(E)(I0) == 0, forall([k], Implies(k >= 0, f(E)(k + 1) == f(E)(k) + one(sw(enum(k))) + one(ev(enum(k)))), [enum(k)])]

    def facts(E, new, c, upto=None):
        sw, ev = kinds(E)
        x = sx(E)
        seen = (lambda x: And(dom(E, new, x), upto(x))) if upto else (lambda x: dom(E, new, x))
        return [('none without a switch', Implies(forall([x], Implies(dom(E, new, x), And(Not(sw(x)), Not(ev(x)))), [dom(E, new, x)]), c == 0)),
                ('each switch is reported', forall([x], Implies(And(seen(x), Or(sw(x), ev(x))), c >= 1), [dom(E, new, x)])),
                ('at most two per pair', c >= 0)]
    S.fn(MO + 'ComputeNumMismatches', opts=dict(on_enum=define), requires=lambda E, A: [card(E, A['gt_pd_new_matchings']) >= 0],
         loops={0: lambda E, L: [('counted so far', L.v('num_mismatches') == f(E)(L.k))] + facts(E, E.A['gt_pd_new_matchings'], L.v('num_mismatches'), lambda x: L.idx(x) < L.k)},
         ensures=lambda E, A, r, p: [('one for every changed prediction and one for every evicted ground truth', r == f(E)(card(E, A['gt_pd_new_matchings'])))] + facts(E, A['gt_pd_new_matchings'], r))


def frame(S):
    """MOT::Eval: one frame"""
    MS = lambda E: E.get(E.A['this'], 'gt_pd_matchings_').sort()
    N0 = lambda E: z3.Const('pairs kept', MS(E))
    RM = lambda E: z3.Const('pairs matched', MS(E))
    MI = lambda E: z3.Function('ground truth newly matched to', STR, STR)
    mis = lambda E: z3.Const('switches of the frame', z3.IntSort())
    num = lambda E, n: z3.Const('frame ' + n, z3.IntSort())

    def cal(E):
        qb, qi, qm, qs = ANON + 'BuildTrackingIdToDetectionBoxIndexMaps', MO + 'InitializeNewMapping', MO + 'Match', MO + 'ComputeNumMismatches'
        x = sx(E)

        def b_post(A, r, p):
            M = A['matcher']
            P, G = p['pd_map'], p['gt_map']
            a, b = E.at(ps(E, M), i), E.at(ps(E, M), j)
            n = E.len(ps(E, M))
            dist = forall([i, j], Implies(And(inr(i, n), inr(j, n), pid(E, M, a) == pid(E, M, b)), i == j), [z3.MultiPattern(a, b)])
            return mapok(E, P, ps(E, M), lambda n: pid(E, M, n)) + mapok(E, G, gs(E, M), lambda n: gid(E, M, n)) + [
                card(E, G) == E.len(gs(E, M)), Implies(dist, card(E, P) == n),
                forall([i], Implies(inr(i, E.len(gs(E, M))), dom(E, G, gid(E, M, E.at(gs(E, M), i)))), [E.at(gs(E, M), i)])]

        def i_post(A, r, p):
            return [f for _, f in keep_post(E, A, r, p['pd_map'], p['gt_map'], p['this'])] + [r == N0(E)]

        def m_post(A, r, p):
            R_ = E.get(r, 'gt_pd_matchings')
            # the last one: one-to-one pairs have an inverse
            return [f for _, f in match_post(E, A, r, p)] + [R_ == RM(E), E.get(r, 'num_fns') == num(E, 'misses'), E.get(r, 'num_fps') == num(E, 'fps'), E.get(r, 'num_fns_above_difficulty_level') == num(E, 'beyond'),
                counting(E, A['matcher']).nl(PM(E), ps(E, p['matcher']), E.len(ps(E, p['matcher']))) == num(E, 'nlz'),
                forall([x], Implies(dom(E, R_, x), MI(E)(val(E, R_, x)) == x), [dom(E, R_, x)])]

        def s_post(A, r, p):
            sw, ev = trig(E, A['this'], A['gt_pd_new_matchings'], lambda y: Or(dom(E, A['gt_map'], y), dom(E, A['gt_pd_new_matchings'], y)))
            new = A['gt_pd_new_matchings']
            return [Implies(forall([x], Implies(dom(E, new, x), And(Not(sw(x)), Not(ev(x)))), [dom(E, new, x)]), r == 0),
                    forall([x], Implies(And(dom(E, new, x), Or(sw(x), ev(x))), r >= 1), [dom(E, new, x)]), r >= 0, r == mis(E)]
        su = lambda A: [('set up', And(*c02.setup(E, {'this': A['matcher']})))]
        mo = lambda A: [('maps of the frame', And(*maps(E, A, A['matcher'])))]
        return {qb: Contract(qb, args=('matcher', 'pd_map', 'gt_map'), modifies=('pd_map', 'gt_map'), requires=lambda A: su(A) + [('no duplicate ground truths', unique(E, A['matcher'])), ('empty maps', And(card(E, A['pd_map']) == 0, card(E, A['gt_map']) == 0, forall([x], And(Not(dom(E, A['pd_map'], x)), Not(dom(E, A['gt_map'], x))))))], ensures=b_post),
                qi: Contract(qi, args=('matcher', 'pd_map', 'gt_map'), modifies=('pd_map', 'gt_map', 'this'), requires=lambda A: su(A) + mo(A) + [(n, f) for n, f in inverse(E, A['this'])], ensures=i_post),
                qm: Contract(qm, args=('pd_map', 'gt_map', 'difficulty_level', 'matcher'), modifies=('matcher', 'this'), requires=lambda A: su(A) + mo(A), ensures=m_post),
                qs: Contract(qs, ensures=s_post)}

    def new(E):
        """the pairs of this frame"""
        a, b = N0(E), RM(E)
        return (lambda x: Or(dom(E, a, x), dom(E, b, x))), (lambda x: If(dom(E, a, x), val(E, a, x), val(E, b, x)))

    def ninv(E, y):
        pg = E.get(E.A['this'], 'pd_gt_matchings_')
        z = val(E, pg, y)
        return If(And(dom(E, pg, y), dom(E, N0(E), z), val(E, N0(E), z) == y), z, MI(E)(y))

    def taken(E, y):
        d, v = new(E)
        return And(d(ninv(E, y)), v(ninv(E, y)) == y)

    def evictable(E, x):
        gp = E.get(E.A['this'], 'gt_pd_matchings_')
        return And(dom(E, gp, x), Not(new(E)[0](x)), taken(E, val(E, gp, x)))

    rank = lambda E: E.func('spec_evicted before', z3.IntSort(), z3.IntSort())
    hit = lambda E: E.func('spec_evicts', z3.IntSort(), z3.BoolSort())

    def cond(E, x):
        pg = E.get(E.A['this'], 'pd_gt_matchings_')
        d, v = new(E)
        return And(dom(E, pg, v(x)), Not(d(val(E, pg, v(x)))))

    def define(E, enum, t, n):
        if n != 1:
            return []
        r, h = rank(E), hit(E)
        return [r(I0) == 0, forall([k], Implies(k >= 0, And(r(k + 1) == r(k) + If(h(k), z3.IntVal(1), I0), h(k) == cond(E, enum(k)))), [enum(k), h(k)])]

    def l0(E, L):
        y = sx(E, 'y')
        d, v = new(E)
        z = ninv(E, y)
        return [('ids seen so far', forall([y], Implies(dom(E, L.v('pd_ids'), y), And(d(z), v(z) == y, L.idx(z) < L.k)), [dom(E, L.v('pd_ids'), y)]))]

    def l1(E, L):
        E.order1 = (L.enum, L.idx)
        gp0, gp = E.get(E.A['this'], 'gt_pd_matchings_'), E.get(L.v('this'), 'gt_pd_matchings_')
        pg = E.get(E.A['this'], 'pd_gt_matchings_')
        d, v = new(E)
        x = sx(E)
        ev, r, h, en = L.v('gt_to_evict'), rank(E), hit(E), L.enum
        c = hit(E)(i)
        e = E.at(ev, i)
        return [('new pairs replace old ones', forall([x], And(dom(E, gp, x) == Or(dom(E, gp0, x), And(d(x), L.idx(x) < L.k)), val(E, gp, x) == If(And(d(x), L.idx(x) < L.k), v(x), val(E, gp0, x))), [dom(E, gp, x), val(E, gp, x)])),
                ('as many evictions', E.len(ev) == r(L.k)),
                ('this one', h(L.k) == cond(E, en(L.k))),
                ('earlier evictions', forall([i], Implies(inr(i, L.k), And(r(i) >= 0, r(i) + If(c, z3.IntVal(1), I0) <= r(L.k))), [en(i), c])),
                ('each evicted track is listed', forall([i], Implies(And(inr(i, L.k), c), E.at(ev, r(i)) == val(E, pg, v(en(i)))), [en(i)])),
                ('only evicted tracks are listed', forall([i], Implies(inr(i, E.len(ev)), evictable(E, e)), [e])),
                ('rest', same(E, L.v('this'), L.e('this'), ('gt_pd_matchings_',)))]

    def after(E, gp, upto):
        gp0 = E.get(E.A['this'], 'gt_pd_matchings_')
        d, v = new(E)
        x = sx(E)
        return [('values', forall([x], val(E, gp, x) == If(d(x), v(x), val(E, gp0, x)), [val(E, gp, x)])),
                ('nothing new', forall([x], Implies(dom(E, gp, x), Or(d(x), dom(E, gp0, x))), [dom(E, gp, x)])),
                ('only evicted tracks leave', forall([x], Implies(And(Or(d(x), dom(E, gp0, x)), Not(evictable(E, x))), dom(E, gp, x)), [dom(E, gp, x), dom(E, gp0, x)]))]

    def l2(E, L):
        gp = E.get(L.v('this'), 'gt_pd_matchings_')
        ev = L.v('gt_to_evict')
        return after(E, gp, None) + [('gone', forall([i], Implies(inr(i, L.k), Not(dom(E, gp, E.at(ev, i)))), [E.at(ev, i)])), ('rest', same(E, L.v('this'), L.e('this'), ('gt_pd_matchings_',)))]

    def finv(E, y):
        return If(taken(E, y), ninv(E, y), val(E, E.get(E.A['this'], 'pd_gt_matchings_'), y))

    def l3(E, L):
        gp, pg = E.get(L.v('this'), 'gt_pd_matchings_'), E.get(L.v('this'), 'pd_gt_matchings_')
        y = sx(E, 'y')
        z = finv(E, y)
        return [('inverse so far', forall([y], And(dom(E, pg, y) == And(dom(E, gp, z), val(E, gp, z) == y, L.idx(z) < L.k), Implies(dom(E, pg, y), val(E, pg, y) == z)), [dom(E, pg, y)])),
                ('rest', same(E, L.v('this'), L.e('this'), ('pd_gt_matchings_',)))]

    def det(E, L):
        return [('rest', And(same(E, L.v('this'), L.e('this'), ('measurement_',)), same(E, E.get(L.v('this'), 'measurement_'), E.get(L.e('this'), 'measurement_'), ('details',)), E.len(g(E, L.v('this'), 'measurement_.details')) == E.len(g(E, L.e('this'), 'measurement_.details'))))]

    def ens(E, A, r, p):
        T0, T1, M = A['this'], p['this'], A['matcher_ptr']
        m0, m1 = E.get(T0, 'measurement_'), E.get(T1, 'measurement_')
        dl = lambda f: E.get(m1, f) - E.get(m0, f)
        gp0, gp = E.get(T0, 'gt_pd_matchings_'), E.get(T1, 'gt_pd_matchings_')
        d, v = new(E)
        x = sx(E)
        n = E.len(ps(E, M))
        a, b = E.at(ps(E, M), i), E.at(ps(E, M), j)
        dist = forall([i, j], Implies(And(inr(i, n), inr(j, n), pid(E, M, a) == pid(E, M, b)), i == j), [z3.MultiPattern(a, b)])
        sw, ev = trig(E, T0, N0(E), lambda y: FALSE)
        pg0 = E.get(T0, 'pd_gt_matchings_')
        here = lambda y: z3.Exists([i], And(inr(i, E.len(gs(E, M))), gid(E, M, E.at(gs(E, M), i)) == y))
        return [('one-to-one afterwards: ' + nm, f) for nm, f in inverse(E, T1)] + [
            ('new pairs enter the correspondence', forall([x], Implies(d(x), And(dom(E, gp, x), val(E, gp, x) == v(x))), [dom(E, gp, x)])),
            ('other tracks keep theirs unless their prediction was taken', forall([x], Implies(Not(d(x)), And(dom(E, gp, x) == And(dom(E, gp0, x), Not(evictable(E, x))), Implies(dom(E, gp, x), val(E, gp, x) == val(E, gp0, x)))), [dom(E, gp, x)])),
            ('matches plus misses are the ground truths that count', dl('num_matches') + dl('num_misses') == dl('num_objects_gt')),
            ('ground truths that count are the frame\'s but those missed beyond the level', And(dl('num_objects_gt') == E.len(gs(E, M)) - num(E, 'beyond'), num(E, 'beyond') >= 0)),
            ('matches plus false positives are the predictions that count', Implies(dist, dl('num_matches') + dl('num_fps') == n - num(E, 'nlz'))),
            ('no count decreases', And(*[dl(f) >= 0 for f in ('num_matches', 'num_misses', 'num_fps', 'num_mismatches')])),
            ('no mismatch without an identity switch', Implies(forall([x], Implies(d(x), And(Implies(dom(E, gp0, x), val(E, gp0, x) == v(x)), Implies(And(dom(E, pg0, v(x)), Not(d(val(E, pg0, v(x))))), here(val(E, pg0, v(x)))))), [dom(E, gp, x)]), dl('num_mismatches') == 0)),
            ('every identity switch is a mismatch', forall([x], Implies(And(d(x), dom(E, gp0, x), val(E, gp0, x) != v(x)), dl('num_mismatches') >= 1), [dom(E, gp, x)]))]
    S.fn(MO + 'Eval', opts=dict(on_enum=define), requires=lambda E, A: c02.setup(E, {'this': A['matcher_ptr']}) + [unique(E, A['matcher_ptr'])] + [f for _, f in inverse(E, A['this'])] + [card(E, E.get(A['this'], 'gt_pd_matchings_')) >= 0],
         callees=cal, loops={0: l0, 1: l1, 2: l2, 3: l3, 4: det, 5: det, 6: det}, ensures=ens)


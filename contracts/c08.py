"""C08: contracts on detection_metrics.cc and metrics_utils.cc."""
from spec import *
import c02
import c05

IN = NS + 'internal::'
i, j, k = z3.Ints('spec!i spec!j spec!k')
iouv = z3.Function('spec_iou', z3.IntSort(), z3.IntSort(), z3.RealSort())
affv = z3.Function('spec_aff', z3.IntSort(), z3.IntSort(), z3.RealSort())


def obj(E, M, side, sub, n):
    v = c02.preds(E, M) if side == 'p' else c02.gts(E, M)
    return E.at(v, E.at(E.get(M, sub), n))


def setm(E, M, pm=None, gm=None):
    """the matcher was set up and the matches are those of its subsets"""
    ps, gs = E.get(M, 'prediction_subset_'), E.get(M, 'ground_truth_subset_')
    out = c02.setup(E, {'this': M})
    if pm is not None:
        out += [E.len(pm) == E.len(ps), forall([i], Implies(inr(i, E.len(ps)), Or(E.at(pm, i) == -1, inr(E.at(pm, i), E.len(gs)))), [E.at(pm, i)])]
    if gm is not None:
        out += [E.len(gm) == E.len(gs), forall([j], Implies(inr(j, E.len(gs)), Or(E.at(gm, j) == -1, inr(E.at(gm, j), E.len(ps)))), [E.at(gm, j)])]
    return out


def build(S):
    S.fn(IN + 'IsTP', requires=lambda E, A: [inr(A[1], E.len(A[0]))], ensures=lambda E, A, r, p: [('matched', r == (E.at(A[0], A[1]) >= 0))])
    S.fn(IN + 'IsFP', requires=lambda E, A: setm(E, A[0], pm=A[1]) + [inr(A[2], E.len(A[1]))], ensures=lambda E, A, r, p: [
        ('unmatched and outside no-label zones', r == And(E.at(A[1], A[2]) < 0, Not(E.get(obj(E, A[0], 'p', 'prediction_subset_', A[2]), 'overlap_with_nlz'))))])
    for n, f in (('IsDetectionFN', 'detection_difficulty_level'), ('IsTrackingFN', 'tracking_difficulty_level')):
        S.fn(IN + n, requires=lambda E, A: setm(E, A[0], gm=A[1]) + [inr(A[2], E.len(A[1]))], ensures=lambda E, A, r, p, f=f: [
            ('unmatched and not beyond the difficulty level', r == And(E.at(A[1], A[2]) < 0, g(E, obj(E, A[0], 'g', 'ground_truth_subset_', A[2]), 'object.' + f) <= A[3]))])
    S.fn(IN + 'GetDifficultyLevels', requires=lambda E, A: [inr(A[1], E.len(E.get(A[0], 'difficulties')))], ensures=lambda E, A, r, p: levels_post(E, A, r),
         loops={0: lambda E, L: [('copied so far', And(E.len(L.v('difficulty_levels')) == L.k, forall([i], Implies(inr(i, L.k), E.at(L.v('difficulty_levels'), i) == E.at(g(E, E.at(E.get(E.A[0], 'difficulties'), E.A[1]), 'levels'), i)), [E.at(L.v('difficulty_levels'), i)])))]})
    S.fn(IN + 'HasVelocityBreakdown', ensures=lambda E, A, r, p: [('iff some generator is VELOCITY', r == z3.Exists([i], And(inr(i, E.len(E.get(A[0], 'breakdown_generator_ids'))), E.at(E.get(A[0], 'breakdown_generator_ids'), i) == 7)))],
         loops={0: lambda E, L: [('none so far', forall([i], Implies(inr(i, L.k), E.at(E.get(E.A[0], 'breakdown_generator_ids'), i) != 7), [E.at(E.get(E.A[0], 'breakdown_generator_ids'), i)]))]})
    c05.angle(S, IN)
    heading(S)
    speed(S)
    frame(S)
    find_gt(S)
    counts(S)
    shards(S)
    per_shard(S)
    subsets(S)


def levels_post(E, A, r):
    lv = g(E, E.at(E.get(A[0], 'difficulties'), A[1]), 'levels')
    return [('the configured levels in order, or only level 2', If(E.len(lv) > 0, And(E.len(r) == E.len(lv), forall([i], Implies(inr(i, E.len(lv)), E.at(r, i) == E.at(lv, i)), [E.at(r, i)])),
             And(E.len(r) == 1, E.at(r, z3.IntVal(0)) == 2)))]


def heading(S):
    pi = dbl(3.141592653589793)
    norm = z3.Function('spec_norm', z3.RealSort(), z3.RealSort())

    def cal(E):
        q = IN + 'NormalizeAngle'
        return {q: Contract(q, ensures=lambda A, r, p: [r == norm(A[0]), r >= -pi, r < pi])}

    def ens(E, A, r, p):
        h = lambda v, n: norm(g(E, E.at(v, n), 'object.box.heading'))
        d = h(c02.preds(E, A[0]), A[1]) - h(c02.gts(E, A[0]), A[2])
        ad = If(d >= 0, d, -d)
        return [('in [0, 1]', And(r >= 0, r <= 1)), ('1 minus the wrapped heading error over pi', r == 1 - If(ad > pi, 2 * pi - ad, ad) / pi)]
    S.fn(IN + 'ComputeHeadingAccuracy', requires=lambda E, A: c02.setup(E, {'this': A[0]}) + [inr(A[1], E.len(c02.preds(E, A[0]))), inr(A[2], E.len(c02.gts(E, A[0])))], callees=cal, ensures=ens)


def iou_c(E):
    MT = c02.MT
    return {MT + 'IoU': Contract(MT + 'IoU', requires=lambda A: c02.indices(E, A), ensures=lambda A, r, p: [r == iouv(A[0], A[1]), r >= 0, r <= 1])}


def find_gt(S):
    def v(E, M, a, b):
        return iouv(E.at(E.get(M, 'prediction_subset_'), a), E.at(E.get(M, 'ground_truth_subset_'), b))

    def inv(E, L):
        M, a, t = E.A[0], E.A[1], E.A[2]
        b, mx, n = L.v('gt_subset_id'), L.v('max_iou'), L.v('i')
        return [('best so far', Or(And(b == -1, mx == t, forall([j], Implies(inr(j, n), v(E, M, a, j) < t), [E.at(E.get(M, 'ground_truth_subset_'), j)])),
                                   And(inr(b, n), mx == v(E, M, a, b), mx >= t, forall([j], Implies(inr(j, n), v(E, M, a, j) <= mx), [E.at(E.get(M, 'ground_truth_subset_'), j)]))))]

    def ens(E, A, r, p):
        M = A[0]
        n = E.len(E.get(M, 'ground_truth_subset_'))
        return [('-1 iff no ground truth of the subset overlaps by the threshold', (r == -1) == Not(z3.Exists([j], And(inr(j, n), v(E, M, A[1], j) >= A[2])))),
                ('otherwise one with the largest overlap', Implies(r != -1, And(inr(r, n), v(E, M, A[1], r) >= A[2], forall([j], Implies(inr(j, n), v(E, M, A[1], j) <= v(E, M, A[1], r)), [E.at(E.get(M, 'ground_truth_subset_'), j)]))))]
    S.fn(IN + 'FindGTWithLargestIoU', requires=lambda E, A: c02.setup(E, {'this': A[0]}) + [inr(A[1], E.len(E.get(A[0], 'prediction_subset_')))], callees=iou_c, ensures=ens, loops={0: inv})


def counts(S):
    """the counting loop: TP, FP, FN and the two sums, each defined by its recurrence over the matches"""
    def env(E, A):
        class X:
            pass
        x = X()
        x.M, x.b = A['matcher'], A['breakdown']
        x.pm, x.gm = A['pd_matches'], A['gt_matches']
        x.ps, x.gs = E.get(x.M, 'prediction_subset_'), E.get(x.M, 'ground_truth_subset_')
        I, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
        os = E.at(c02.gts(E, x.M), I0).sort()
        x.inb = E.func('spec_in_breakdown', os, x.b.sort(), B_)
        x.gto = E.func('spec_gt_only', x.b.sort(), B_)
        x.ha = E.func('spec_heading_acc', I, I, R_)
        x.fgt = E.func('spec_find_gt', I, I)
        x.gobj = lambda n: E.at(c02.gts(E, x.M), E.at(x.gs, n))
        x.pobj = lambda n: E.at(c02.preds(E, x.M), E.at(x.ps, n))
        x.here = lambda n: Or(Not(x.gto(x.b)), x.inb(x.gobj(n), x.b))
        x.h = lambda n: x.ha(E.at(x.ps, n), E.at(x.gs, E.at(x.pm, n)))
        x.tp = lambda n: And(E.at(x.pm, n) >= 0, x.here(E.at(x.pm, n)), x.h(n) > E.get(A['config'], 'min_heading_accuracy'))
        x.fp = lambda n: And(E.at(x.pm, n) < 0, Not(E.get(x.pobj(n), 'overlap_with_nlz')), Or(Not(x.gto(x.b)), x.fgt(n) < 0, x.here(x.fgt(n))))
        x.fn = lambda n: And(E.at(x.gm, n) < 0, g(E, x.gobj(n), 'object.detection_difficulty_level') <= A['difficulty_level'], x.here(n))
        let = g(E, A['config'], 'let_metric_config.enabled')
        x.la = lambda n: If(let, affv(E.at(x.ps, n), E.at(x.gs, E.at(x.pm, n))), z3.RealVal(1))
        x.f = {m: E.func('spec_' + m, I, s) for m, s in (('TP', I), ('FP', I), ('FN', I), ('HA', R_), ('LA', R_))}
        one = lambda c: If(c, z3.IntVal(1), z3.IntVal(0))
        x.step = dict(TP=lambda n: one(x.tp(n)), FP=lambda n: one(x.fp(n)), FN=lambda n: one(x.fn(n)), HA=lambda n: If(x.tp(n), x.h(n), R(0)), LA=lambda n: If(x.tp(n), x.la(n), R(0)))
        return x

    def req(E, A):
        x = env(E, A)
        out = setm(E, x.M, x.pm, x.gm) + [forall([i, j], And(x.ha(i, j) >= 0, x.ha(i, j) <= 1), [x.ha(i, j)])]
        for m, f in x.f.items():
            out += [f(0) == 0, forall([k], Implies(k >= 0, f(k + 1) == f(k) + x.step[m](k)), [f(k)])]
        return out

    def cal(E):
        def c(n, ens, req=None):
            return n, Contract(n, requires=req, ensures=ens)

        def idx(A):
            x = env(E, E.A)
            return [('the prediction index is valid', inr(A[1], E.len(c02.preds(E, x.M)))), ('the ground-truth index is valid', inr(A[2], E.len(c02.gts(E, x.M))))]
        idx0 = lambda A: c02.indices(E, A)
        return dict([
            c(IN + 'IsInBreakdown', lambda A, r, p: [r == env(E, E.A).inb(A[0], A[1])]),
            c(IN + 'IsGroundTruthOnlyBreakdown', lambda A, r, p: [r == env(E, E.A).gto(A[0])]),
            c(IN + 'ComputeHeadingAccuracy', lambda A, r, p: [r == env(E, E.A).ha(A[1], A[2])], idx),
            c(IN + 'FindGTWithLargestIoU', lambda A, r, p: [r == env(E, E.A).fgt(A[1]), r >= -1, r < E.len(env(E, E.A).gs)],
              lambda A: [('a prediction of the subset', inr(A[1], E.len(env(E, E.A).ps))), ('the overlap threshold is 1%', A[2] == dbl(.01))]),
            c(c02.MT + 'LongitudinalAffinity', lambda A, r, p: [r == affv(A[0], A[1])], idx0),
            c(c02.MT + 'IoU', lambda A, r, p: [r == iouv(A[0], A[1]), r >= 0, r <= 1], idx0),
        ])

    def inv(E, L):
        x = env(E, E.A)
        n = L.v('i')
        return [('counts so far', And(L.v('num_true_positives') == x.f['TP'](n), L.v('num_false_positives') == x.f['FP'](n), L.v('num_false_negatives') == 0)),
                ('sums so far', And(L.v('sum_heading_accuracy') == x.f['HA'](n), L.v('sum_longitudinal_affinity') == x.f['LA'](n)))]

    def inv2(E, L):
        x = env(E, E.A)
        n, sz = L.v('i'), E.len(x.pm)
        return [('counts', And(L.v('num_true_positives') == x.f['TP'](sz), L.v('num_false_positives') == x.f['FP'](sz), L.v('num_false_negatives') == x.f['FN'](n))),
                ('sums', And(L.v('sum_heading_accuracy') == x.f['HA'](sz), L.v('sum_longitudinal_affinity') == x.f['LA'](sz)))]

    def ens(E, A, r, p):
        x = env(E, A)
        P, G = E.len(x.pm), E.len(x.gm)
        return [('true positives: matched predictions (to a ground truth of the breakdown)', E.get(r, 'num_tps') == x.f['TP'](P)),
                ('false positives: unmatched predictions outside no-label zones that overlap no ground truth of another shard', E.get(r, 'num_fps') == x.f['FP'](P)),
                ('false negatives: unmatched ground truths within the difficulty level (of the breakdown)', E.get(r, 'num_fns') == x.f['FN'](G)),
                ('heading accuracies of the true positives', E.get(r, 'sum_ha') == x.f['HA'](P)),
                ('affinities of the true positives, 1 each without LET', E.get(r, 'sum_longitudinal_affinity') == x.f['LA'](P))]
    LISTS = [('tp_pr_ids', 'TP'), ('tp_gt_ids', 'TP'), ('tp_ious', 'TP'), ('tp_heading_accuracies', 'TP'), ('tp_longitudinal_affinities', 'TP'), ('fp_ids', 'FP'), ('fn_ids', 'FN')]

    def listed(E, x, m, n):
        """the details list what is counted; n: how far each count has got"""
        d = E.at(E.get(m, 'details'), I0)
        return [('one details entry', E.len(E.get(m, 'details')) == 1)] + [(f + ' has one entry per count', E.len(E.get(d, f)) == x.f[c](n[c])) for f, c in LISTS]

    def wd(f, far):
        def g_(E, L):
            x = env(E, E.A)
            return f(E, L) + listed(E, x, L.v('measurement'), far(E, x, L))
        return g_
    invd = wd(inv, lambda E, x, L: dict(TP=L.v('i'), FP=L.v('i'), FN=I0))
    inv2d = wd(inv2, lambda E, x, L: dict(TP=E.len(x.pm), FP=E.len(x.pm), FN=L.v('i')))

    def ensd(E, A, r, p):
        x = env(E, A)
        return ens(E, A, r, p) + listed(E, x, r, dict(TP=E.len(x.pm), FP=E.len(x.pm), FN=E.len(x.gm)))
    for det in (False, True):
        S.fn(ANON + 'ComputeDetectionMeasurementFromMatchingResult', label='ComputeDetectionMeasurementFromMatchingResult (%s details)' % ('with' if det else 'no'),
             requires=lambda E, A, det=det: req(E, A) + [E.get(A['config'], 'include_details_in_measurements') == det], callees=cal, ensures=ensd if det else ens, loops={0: invd if det else inv, 1: inv2d if det else inv2})


BG = NS + 'BreakdownGenerator::'


def generators(E):
    """BreakdownGenerator (C07): Create gives the generator of the id; Shard and the rest are functions of the id and the object"""
    I = z3.IntSort()

    def sh(a, o):
        return E.func('spec_shard', I, o.sort(), I)(a, o)
    num, only = E.func('spec_num_shards', I, I), E.func('spec_gt_only_id', I, z3.BoolSort())

    def gid(A):
        return E.get(A['this'], '__id')
    c = {BG + 'Create': Contract(BG + 'Create', ensures=lambda A, r, p: [E.get(r, 'has'), E.get(E.get(r, 'val'), '__id') == A[0]]),
         BG + 'Shard': Contract(BG + 'Shard', ensures=lambda A, r, p: [r == sh(gid(A), A[0]), r >= -1, r < num(gid(A))]),
         BG + 'NumShards': Contract(BG + 'NumShards', ensures=lambda A, r, p: [r == num(gid(A)), r > 0]),
         BG + 'IsGroundTruthOnlyBreakdown': Contract(BG + 'IsGroundTruthOnlyBreakdown', ensures=lambda A, r, p: [r == only(gid(A))])}
    return c, sh, num, only


def shards(S):
    S.fn(IN + 'IsInBreakdown', callees=lambda E: generators(E)[0], ensures=lambda E, A, r, p: [
        ('the generator of the breakdown puts the object in its shard', r == (generators(E)[1](E.get(A[1], 'generator_id'), A[0]) == E.get(A[1], 'shard')))])
    S.fn(IN + 'IsGroundTruthOnlyBreakdown', callees=lambda E: generators(E)[0], ensures=lambda E, A, r, p: [
        ("the generator's own answer", r == generators(E)[3](E.get(A[0], 'generator_id')))])


def per_shard(S):
    """one measurement per difficulty level and score cutoff, each from the match of that cutoff's predictions"""
    MT = c02.MT

    def cal(E):
        B = E.sort(NS + 'Breakdown')
        meas = E.func('spec_measure', E.S.vec('int'), z3.IntSort(), B, E.sort(NS + 'DetectionMeasurement'))
        E.meas = meas

        def match(A, r, p):
            M = A['this']
            return [E.len(p['prediction_matches']) == E.len(E.get(M, 'prediction_subset_')), E.len(p['ground_truth_matches']) == E.len(E.get(M, 'ground_truth_subset_'))]
        return {MT + 'Match': Contract(MT + 'Match', args=('prediction_matches', 'ground_truth_matches'), modifies=('prediction_matches', 'ground_truth_matches'), ensures=match),
                IN + 'GetDifficultyLevels': Contract(IN + 'GetDifficultyLevels', requires=lambda A: [('a configured generator', inr(A[1], E.len(E.get(A[0], 'difficulties'))))], ensures=lambda A, r, p: levels_post(E, A, r)),
                ANON + 'ComputeDetectionMeasurementFromMatchingResult': Contract(ANON + 'ComputeDetectionMeasurementFromMatchingResult', ensures=lambda A, r, p: [r == meas(E.get(A['matcher'], 'prediction_subset_'), A['difficulty_level'], A['breakdown'])])}

    def req(E, A):
        ps, gs = A['pd_subset'], A['gt_subset']
        b = E.get(ps, 'breakdown_generator_id_index')
        return [E.len(E.get(gs, 'indices')) > 0, E.len(E.get(ps, 'indices')) == E.len(E.get(A['config'], 'score_cutoffs')), inr(b, E.len(E.get(A['config'], 'difficulties'))),
                inr(b, E.len(E.get(A['config'], 'breakdown_generator_ids')))]

    def lv(E, A):
        v = g(E, E.at(E.get(A['config'], 'difficulties'), E.get(A['pd_subset'], 'breakdown_generator_id_index')), 'levels')
        return If(E.len(v) > 0, E.len(v), z3.IntVal(1)), (lambda n: If(E.len(v) > 0, E.at(v, n), z3.IntVal(2)))

    def heads(E, A, m, upto):
        n, at = lv(E, A)
        b = lambda q: E.get(E.at(m, q), 'breakdown')
        return ('each level has its breakdown', And(E.len(m) == n, forall([i], Implies(inr(i, upto), And(E.get(b(i), 'shard') == E.get(A['pd_subset'], 'breakdown_shard'), E.get(b(i), 'difficulty_level') == at(i),
                E.get(b(i), 'generator_id') == E.at(E.get(A['config'], 'breakdown_generator_ids'), E.get(A['pd_subset'], 'breakdown_generator_id_index')))), [E.at(m, i)])))

    def fields(E):
        return ('num_tps', 'num_fps', 'num_fns', 'sum_ha', 'sum_longitudinal_affinity', 'details')

    def rows(E, A, m, cut, level_upto=None):
        """the measurements of the first cut cutoffs (one more for the first level_upto levels)"""
        n, at = lv(E, A)
        ms = lambda q: E.get(E.at(m, q), 'measurements')
        have = lambda q: cut if level_upto is None else If(q < level_upto, cut + 1, cut)
        x = lambda q, c: E.at(ms(q), c)
        pi = E.get(A['pd_subset'], 'indices')
        val = lambda q, c: E.meas(E.at(pi, c), at(q), E.get(E.at(m, q), 'breakdown'))
        return [('one measurement per cutoff so far', forall([i], Implies(inr(i, n), E.len(ms(i)) == have(i)), [E.at(m, i)])),
                ('of the predictions at or above the cutoff, at the level', forall([i, j], Implies(And(inr(i, n), inr(j, have(i))), And(*[E.get(x(i, j), f) == E.get(val(i, j), f) for f in fields(E)])), [x(i, j)])),
                ('carrying the cutoff', forall([i, j], Implies(And(inr(i, n), inr(j, have(i))), E.get(x(i, j), 'score_cutoff') == E.at(E.get(A['config'], 'score_cutoffs'), j)), [x(i, j)]))]

    def l0(E, L):
        m = L.v('measurements')
        n, at = lv(E, E.A)
        return [heads(E, E.A, m, L.v('i')), ('nothing measured yet', forall([i], Implies(inr(i, n), E.len(E.get(E.at(m, i), 'measurements')) == 0), [E.at(m, i)]))]

    def l1(E, L):
        m = L.v('measurements')
        return [heads(E, E.A, m, lv(E, E.A)[0])] + rows(E, E.A, m, L.v('score_idx')) + [('same ground truths', E.get(L.v('matcher'), 'ground_truth_subset_') == E.at(E.get(E.A['gt_subset'], 'indices'), I0))]

    def l2(E, L):
        m = L.v('measurements')
        return [heads(E, E.A, m, lv(E, E.A)[0])] + rows(E, E.A, m, L.v('score_idx'), L.v('dl_idx'))
    S.fn(ANON + 'ComputeDetectionMeasurementsPerBreakdownShard', requires=req, callees=cal, ensures=lambda E, A, r, p: [heads(E, A, r, lv(E, A)[0])] + rows(E, A, r, E.len(E.get(A['config'], 'score_cutoffs'))),
         loops={0: l0, 1: l1, 2: l2})


def subsets(S):
    """BuildSubsets: one entry per generator and shard, listing exactly the members (above each cutoff) in ascending order"""
    a, s, c, o, x, y, e = z3.Ints('spec!a spec!s spec!c spec!o spec!x spec!y spec!e')

    def env(E, A):
        class X:
            pass
        X.cal, sh, X.num_, only = generators(E)
        I = z3.IntSort()
        X.objs, X.cfg, X.is_gt, X.det = A['objects'], A['config'], A['is_gt'], A['is_detection']
        os = E.at(X.objs, I0).sort()
        X.N = E.len(X.objs)
        ids = E.get(X.cfg, 'breakdown_generator_ids')
        X.B, X.C = E.len(ids), E.len(E.get(X.cfg, 'score_cutoffs'))
        X.id = lambda n: E.at(ids, n)
        X.num = lambda n: X.num_(X.id(n))
        X.sfm = E.func('spec_shards_for_matching', I, os, E.S.vec('int'))
        X.pos = E.func('spec_pos', I, os, I, I)
        X.offs, X.ga, X.sa = E.func('spec_offs', I, I), E.func('spec_gen_of', I, I), E.func('spec_shard_of', I, I)
        X.obj = lambda n: E.at(X.objs, n)
        X.memf = E.func('spec_member', I, I, I, z3.BoolSort())
        X.mem = lambda n, t, w: X.memf(n, t, w)
        v = lambda n, w: X.sfm(X.id(n), X.obj(w))
        X.matchs = lambda n: And(X.det, only(X.id(n)))
        X.p = lambda n, w, t: X.pos(X.id(n), X.obj(w), t)
        X.facts = [X.offs(0) == 0, forall([a], Implies(a >= 0, X.offs(a + 1) == X.offs(a) + X.num(a)), [X.num(a)]),
                   forall([a, e], Implies(And(inr(a, X.B), X.offs(a) <= e, e < X.offs(a) + X.num(a)), And(X.ga(e) == a, X.sa(e) == e - X.offs(a))), [z3.MultiPattern(X.ga(e), X.offs(a))]),
                   forall([a], X.num_(a) > 0, [X.num_(a)]),
                   forall([a, s, o], X.memf(a, s, o) == If(X.matchs(a), And(inr(X.p(a, o, s), E.len(v(a, o))), E.at(v(a, o), X.p(a, o, s)) == s), sh(X.id(a), X.obj(o)) == s), [X.memf(a, s, o)]),
                   # the listed shards are distinct and in range (C07)
                   forall([a, o, x], Implies(inr(x, E.len(v(a, o))), And(inr(E.at(v(a, o), x), X.num(a)), X.p(a, o, E.at(v(a, o), x)) == x)), [E.at(v(a, o), x)])]
        X.ok = lambda n, w: Or(X.is_gt, E.get(X.obj(w), 'score') >= E.at(E.get(X.cfg, 'score_cutoffs'), n))
        return X

    def asc(E, X, v, pred, upto, t):
        """v lists exactly the w < upto with pred(w), in ascending order"""
        return [And(E.len(v) >= 0, forall([x], Implies(inr(x, E.len(v)), And(inr(E.at(v, x), upto), pred(E.at(v, x)))), [E.at(v, x)])),
                forall([x, y], Implies(And(x >= 0, x < y, y < E.len(v)), E.at(v, x) < E.at(v, y)), [z3.MultiPattern(E.at(v, x), E.at(v, y))]),
                forall([o], Implies(And(inr(o, upto), pred(o)), z3.Exists([x], And(inr(x, E.len(v)), E.at(v, x) == o))), [t(o)])]

    def part(E, X, bs, n, upto):
        """the shards' member lists, up to object upto(shard)"""
        return [('one list per shard', E.len(bs) == X.num(n))] + [
            ('members only, in order', forall([s, x], Implies(And(inr(s, X.num(n)), inr(x, E.len(E.at(bs, s)))), And(inr(E.at(E.at(bs, s), x), upto(s)), X.mem(n, s, E.at(E.at(bs, s), x)))), [E.at(E.at(bs, s), x)])),
            ('ascending', forall([s, x, y], Implies(And(inr(s, X.num(n)), x >= 0, x < y, y < E.len(E.at(bs, s))), E.at(E.at(bs, s), x) < E.at(E.at(bs, s), y)), [z3.MultiPattern(E.at(E.at(bs, s), x), E.at(E.at(bs, s), y))])),
            ('every member', forall([s, o], Implies(And(inr(s, X.num(n)), inr(o, upto(s)), X.mem(n, s, o)), z3.Exists([x], And(inr(x, E.len(E.at(bs, s))), E.at(E.at(bs, s), x) == o))), [X.memf(n, s, o)]))]

    def entry(E, X, r, upto, length=None):
        """the entries below upto are complete  (the never-true 'len == -7' only gives the solver the term to instantiate with)"""
        rr = lambda q: E.at(r, q)
        have = If(X.is_gt, z3.IntVal(1), X.C)
        ind = lambda q: E.get(rr(q), 'indices')
        lst = lambda q, w: E.at(ind(q), w)
        m = lambda q, w, z: And(X.mem(X.ga(q), X.sa(q), z), X.ok(w, z))
        return [('one entry per generator and shard so far', E.len(r) == (upto if length is None else length)),
                ('headers', forall([e], Implies(inr(e, upto), And(E.get(rr(e), 'breakdown_generator_id_index') == X.ga(e), E.get(rr(e), 'breakdown_shard') == X.sa(e), E.len(ind(e)) == have)), [rr(e)])),
                ('lists hold only members at or above the cutoff', forall([e, c, x], Implies(And(inr(e, upto), inr(c, have), inr(x, E.len(lst(e, c)))), And(inr(E.at(lst(e, c), x), X.N), m(e, c, E.at(lst(e, c), x)))), [E.at(lst(e, c), x)])),
                ('lists are ascending', forall([e, c, x, y], Implies(And(inr(e, upto), inr(c, have), x >= 0, x < y, y < E.len(lst(e, c))), E.at(lst(e, c), x) < E.at(lst(e, c), y)), [z3.MultiPattern(E.at(lst(e, c), x), E.at(lst(e, c), y))])),
                ('lists hold every member at or above the cutoff', forall([e, c, o], Implies(And(inr(e, upto), inr(c, have), inr(o, X.N), m(e, c, o)), Or(E.len(lst(e, c)) == -7, z3.Exists([x], And(inr(x, E.len(lst(e, c))), E.at(lst(e, c), x) == o)))), [z3.MultiPattern(lst(e, c), X.obj(o))]))]

    def current(E, X, r, n, t, cuts, lists):
        """entry r.back() of generator n, shard t: its first cuts lists are complete"""
        q = X.offs(n) + t
        b = E.at(r, q)
        ind = E.get(b, 'indices')
        lst = lambda w: E.at(ind, w)
        m = lambda w, z: And(X.mem(n, t, z), X.ok(w, z))
        return [('header of the new entry', And(E.get(b, 'breakdown_generator_id_index') == n, E.get(b, 'breakdown_shard') == t, E.len(ind) == lists)),
                ('its lists hold only members', forall([c, x], Implies(And(inr(c, cuts), inr(x, E.len(lst(c)))), And(inr(E.at(lst(c), x), X.N), m(c, E.at(lst(c), x)))), [E.at(lst(c), x)])),
                ('its lists are ascending', forall([c, x, y], Implies(And(inr(c, cuts), x >= 0, x < y, y < E.len(lst(c))), E.at(lst(c), x) < E.at(lst(c), y)), [z3.MultiPattern(E.at(lst(c), x), E.at(lst(c), y))])),
                ('its lists hold every member', forall([c, o], Implies(And(inr(c, cuts), inr(o, X.N), m(c, o)), Or(E.len(lst(c)) == -7, z3.Exists([x], And(inr(x, E.len(lst(c))), E.at(lst(c), x) == o)))), [z3.MultiPattern(lst(c), X.obj(o))]))]

    def l0(E, L):
        X = env(E, E.A)
        return entry(E, X, L.v('result'), X.offs(L.v('i')))

    # L.o('i'): the generator loop's i, which the inner loops' i shadows
    def l1(E, L):
        X = env(E, E.A)
        return entry(E, X, L.v('result'), X.offs(L.o('i'))) + part(E, X, L.v('breakdown_subsets'), L.o('i'), lambda t: L.v('i'))

    def l2(E, L):
        X = env(E, E.A)
        n, w = L.o('i'), L.v('i')
        return entry(E, X, L.v('result'), X.offs(n)) + part(E, X, L.v('breakdown_subsets'), n, lambda t: If(And(X.mem(n, t, w), X.p(n, w, t) < L.k), w + 1, w))

    def l3(E, L):
        X = env(E, E.A)
        n = L.v('i')
        return entry(E, X, L.v('result'), X.offs(n) + L.v('shard')) + rest(E, X, L, n, L.v('shard'))

    def rest(E, X, L, n, frm):
        """the lists of the shards still to come (the ones before may have been moved out)"""
        bs = L.v('breakdown_subsets')
        return [('one list per shard', E.len(bs) == X.num(n))] + [
            ('members only, in order', forall([s, x], Implies(And(s >= frm, s < X.num(n), inr(x, E.len(E.at(bs, s)))), And(inr(E.at(E.at(bs, s), x), X.N), X.mem(n, s, E.at(E.at(bs, s), x)))), [E.at(E.at(bs, s), x)])),
            ('ascending', forall([s, x, y], Implies(And(s >= frm, s < X.num(n), x >= 0, x < y, y < E.len(E.at(bs, s))), E.at(E.at(bs, s), x) < E.at(E.at(bs, s), y)), [z3.MultiPattern(E.at(E.at(bs, s), x), E.at(E.at(bs, s), y))])),
            ('every member', forall([s, o], Implies(And(s >= frm, s < X.num(n), inr(o, X.N), X.mem(n, s, o)), z3.Exists([x], And(inr(x, E.len(E.at(bs, s))), E.at(E.at(bs, s), x) == o))), [X.memf(n, s, o)]))]

    def l4(E, L):
        X = env(E, E.A)
        n = L.o('i')
        q = X.offs(n) + L.v('shard')
        return [('not for ground truths', Not(X.is_gt))] + entry(E, X, L.v('result'), q, q + 1) + current(E, X, L.v('result'), n, L.v('shard'), L.v('i'), L.v('i')) + rest(E, X, L, n, L.v('shard'))

    def l5(E, L):
        X = env(E, E.A)
        n, ci = L.o('i'), L.v('i')
        q = X.offs(n) + L.v('shard')
        r = L.v('result')
        ind = E.get(E.at(r, q), 'indices')
        v = E.at(ind, ci)
        bs = E.at(L.v('breakdown_subsets'), L.v('shard'))
        jj = L.v('j')
        return [('not for ground truths', Not(X.is_gt)), ] + entry(E, X, r, q, q + 1) + current(E, X, r, n, L.v('shard'), ci, ci + 1) + rest(E, X, L, n, L.v('shard')) + [
            ('members at or above the cutoff', forall([x], Implies(inr(x, E.len(v)), And(inr(E.at(v, x), X.N), X.mem(n, L.v('shard'), E.at(v, x)), X.ok(ci, E.at(v, x)), Implies(jj < E.len(bs), E.at(v, x) < E.at(bs, jj)))), [E.at(v, x)])),
            ('ascending', forall([x, y], Implies(And(x >= 0, x < y, y < E.len(v)), E.at(v, x) < E.at(v, y)), [z3.MultiPattern(E.at(v, x), E.at(v, y))])),
            ('as many as pass so far', And(E.len(v) >= 0, E.len(v) == rk(E, X)(bs, ci, jj))),
            ('every one so far has its place', forall([x], Implies(And(inr(x, jj), X.ok(ci, E.at(bs, x))), inr(rk(E, X)(bs, ci, x), E.len(v))), [E.at(bs, x)])),
            ('and is there', forall([x], Implies(And(inr(x, jj), X.ok(ci, E.at(bs, x))), E.at(v, rk(E, X)(bs, ci, x)) == E.at(bs, x)), [E.at(bs, x)]))]

    def rk(E, X):
        return E.func('spec_rank', E.S.vec('int'), z3.IntSort(), z3.IntSort(), z3.IntSort())

    def rkax(E, A):
        X = env(E, A)
        f = rk(E, X)
        w = z3.Const('spec!w', E.S.vec('int'))
        return [forall([w, c], f(w, c, 0) == 0, [f(w, c, 0)]), forall([w, c, x], Implies(x >= 0, f(w, c, x + 1) == f(w, c, x) + If(X.ok(c, E.at(w, x)), z3.IntVal(1), z3.IntVal(0))), [z3.MultiPattern(f(w, c, x), E.at(w, x))])]
    for gt in (True, False):
        S.fn(IN + 'BuildSubsets', label='BuildSubsets (%s)' % ('ground truths' if gt else 'predictions'), requires=lambda E, A, gt=gt: env(E, A).facts + rkax(E, A) + [A['is_gt'] == gt], callees=lambda E: dict(generators(E)[0], **{BG + 'ShardsForMatching': Contract(BG + 'ShardsForMatching', ensures=lambda A2, r, p: [r == env(E, E.A).sfm(E.get(A2['this'], '__id'), A2[0])])}),
         ensures=lambda E, A, r, p: entry(E, env(E, A), r, env(E, A).offs(env(E, A).B)), loops={0: l0, 1: l1, 2: l2, 3: l3, 4: l4, 5: l5})


def speed(S):
    """EstimateObjectSpeed: a prediction takes the speed of a nearest ground truth and nothing else changes"""
    S.fn(IN + '(anonymous namespace)::Argmin', requires=lambda E, A: [E.len(A[0]) > 0], ensures=lambda E, A, r, p: [
        ('an index of the smallest element', And(inr(r, E.len(A[0])), forall([j], Implies(inr(j, E.len(A[0])), E.at(A[0], r) <= E.at(A[0], j)), [E.at(A[0], j)])))],
        loops={0: lambda E, L: [('smallest so far', And(L.v('j') >= 1, inr(L.v('i'), E.len(E.A[0])), forall([j], Implies(inr(j, L.v('j')), E.at(E.A[0], L.v('i')) <= E.at(E.A[0], j)), [E.at(E.A[0], j)])))]})

    def SQ(E):
        return E.func('square', z3.RealSort(), z3.RealSort())

    S.fn(IN + '(anonymous namespace)::Sqr', ensures=lambda A, r, p: [('the square', r == A[0] * A[0])])

    def dfull(E, o, q):
        b, c = g(E, o, 'object.box'), g(E, q, 'object.box')
        sq = SQ(E)
        return sqrt(E, sum((sq(E.get(b, 'center_' + a) - E.get(c, 'center_' + a)) for a in 'yz'), sq(E.get(b, 'center_x') - E.get(c, 'center_x'))))

    def d(E, o, q):
        return z3.Function('distance of objects', o.sort(), o.sort(), z3.RealSort())(o, q)

    def dax(E):
        O = E.S.sort('waymo::open_dataset::Object')
        o, q = z3.Const('spec!o', O), z3.Const('spec!q', O)
        return [forall([o, q], d(E, o, q) == dfull(E, o, q), [d(E, o, q)])]

    def rest(E, o, q):
        """q is o but for the speed"""
        m = g(E, q, 'object.metadata')
        out = []
        for f, _, _ in E.info(o).fields:
            if f not in ('object', 'has_object'):
                out.append(E.get(o, f) == E.get(q, f))
        ob, qb = E.get(o, 'object'), E.get(q, 'object')
        for f, _, _ in E.info(ob).fields:
            if f not in ('metadata', 'has_metadata'):
                out.append(E.get(ob, f) == E.get(qb, f))
        return And(*out)

    def done(E, A, r, n):
        P, G = A['pds'], A['gts']
        sp = lambda o, c: g(E, o, 'object.metadata.speed_' + c)
        near = lambda a, b: forall([k], Implies(inr(k, E.len(G)), d(E, E.at(P, a), E.at(G, b)) <= d(E, E.at(P, a), E.at(G, k))), [E.at(G, k)])
        return [('one object per prediction', E.len(r) == E.len(P)),
                ('nothing but the speed changes', forall([i], Implies(inr(i, n), rest(E, E.at(P, i), E.at(r, i))), [E.at(r, i)])),
                ('without ground truths the speed is 0', Implies(E.len(G) == 0, forall([i], Implies(inr(i, n), And(sp(E.at(r, i), 'x') == 0, sp(E.at(r, i), 'y') == 0)), [E.at(r, i)]))),
                ('the speed of a nearest ground truth', Implies(E.len(G) > 0, forall([i], Implies(inr(i, n), z3.Exists([j], And(inr(j, E.len(G)), near(i, j), sp(E.at(r, i), 'x') == sp(E.at(G, j), 'x'), sp(E.at(r, i), 'y') == sp(E.at(G, j), 'y')))), [E.at(r, i)])))]

    def later(E, L):
        return [('not reached yet', forall([i], Implies(And(i >= L.v('i'), i < E.len(E.A['pds'])), E.at(L.v('pds_with_velocity'), i) == E.at(E.A['pds'], i)), [E.at(L.v('pds_with_velocity'), i)]))]

    def dist(E, L):
        ds = L.v('distances')
        return [('distances so far', And(E.len(ds) == E.len(E.A['gts']), forall([j], Implies(inr(j, L.v('j')), E.at(ds, j) == d(E, E.at(E.A['pds'], L.v('i')), E.at(E.A['gts'], j))), [E.at(ds, j)])))]

    def arg(E):
        q = IN + '(anonymous namespace)::Argmin'
        return {IN + '(anonymous namespace)::Sqr': Contract(IN + '(anonymous namespace)::Sqr', ensures=lambda A, r, p: [r == SQ(E)(A[0])]), q: Contract(q, requires=lambda A: [('not empty', E.len(A[0]) > 0)], ensures=lambda A, r, p: [inr(r, E.len(A[0])), forall([j], Implies(inr(j, E.len(A[0])), E.at(A[0], r) <= E.at(A[0], j)), [E.at(A[0], j)])])}
    inv = lambda E, L: done(E, E.A, L.v('pds_with_velocity'), L.v('i')) + later(E, L)
    S.fn(IN + 'EstimateObjectSpeed', sig='(const std::vector<waymo::open_dataset::Object,', callees=arg, requires=lambda E, A: dax(E) + [forall([i], Implies(inr(i, E.len(A[n])), E.get(E.at(A[n], i), 'has_object')), [E.at(A[n], i)]) for n in ('pds', 'gts')],
         ensures=lambda E, A, r, p: done(E, A, r, E.len(A['pds'])),
         loops={0: inv, 1: lambda E, L: inv(E, L) + [('size', E.len(L.v('distances')) == E.len(E.A['gts']))], 2: dist})


def frame(S):
    pass

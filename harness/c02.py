"""C02: every Match result satisfies the matching contract."""
import importlib
import gen
from h import I, ii, dd, f32
from gen import metrics_pb2
import c01

RULE = 'random scenes of up to 12 objects per side with overlapping boxes, tied and distinct scores, proper subsets, both matchers, with and without LET'


def config(r, mt=None, let=None):
    c = metrics_pb2.Config()
    c.matcher_type = mt if mt is not None else r.choice([1, 1, 2])
    c.iou_thresholds.extend(r.choice([[0.0, .5, .5, .5, .5], [0.0, .3, .2, .1, .25], [0.0, 0.0, .01, .7, .05], [0.0] + [round(r.random(), 2) for _ in range(4)]]))
    c.box_type = r.choice([1, 1, 2, 3])
    if let if let is not None else r.random() < .25:
        l = c.let_metric_config
        c.box_type = r.choice([1, 1, 2])
        l.enabled = True
        l.sensor_location.x = r.choice([0, 1.43])
        l.sensor_location.y = r.choice([0, .3])
        l.sensor_location.z = r.choice([0, 2.184])
        l.longitudinal_tolerance_percentage = r.choice([.1, .05, 0.0])
        l.min_longitudinal_tolerance_meter = r.choice([.5, 1, 0.2])
        l.align_type = r.choice([1, 2, 3, 4, 5, 6])
    return c


def scene(r, aligned, spread=6.0, n=9):
    g = [gen.obj(r, spread, aligned=aligned) for _ in range(r.randint(0, n))]
    p = [gen.obj(r, spread, near=r.choice(g) if g else None, aligned=aligned) for _ in range(r.randint(0, n))]
    return p, g


def run(H):
    r = H.r

    def one():
        c = config(r)
        al = c.box_type == 3
        p, g = scene(r, al, r.choice([2.0, 6.0, 20.0]))
        ps = list(range(len(p))) if r.random() < .3 else r.sample(range(len(p)), r.randint(0, len(p)))
        gs = list(range(len(g))) if r.random() < .3 else r.sample(range(len(g)), r.randint(0, len(g)))
        mask = r.choice([0, 0, 0, 1, 2, 3]) if c.matcher_type == 1 else 0
        fl = [mask, r.choice([0, 0, len(ps), 3]), r.choice([0, 0, len(gs), 20])]
        args = [c, gen.objs(p), gen.objs(g), I(ps), I(gs), I(fl)]
        prior = r.random() < .3
        if prior:
            p0, g0 = scene(r, al, 4.0)
            if len(p0) != len(p) and r.random() < .7:
                p0 = (p0 * 12)[:len(p)] or p0
                g0 = (g0 * 12)[:len(g)] or g0
            k = r.random()
            args += [gen.objs(p) if k < .2 else gen.objs(p0), gen.objs(g) if k > .8 else gen.objs(g0)]
        H.case(lambda: dict(config=gen.show(c), predictions=[gen.show(x) for x in p], ground_truths=[gen.show(x) for x in g], prediction_subset=ps,
                            ground_truth_subset=gs, null_mask=mask, prefilled=fl[1:], used_before=prior), key=(H.round, H.evals), nontrivial=bool(ps and gs))
        rep = H.call('match', *args)
        pm, gm, iou, aff, can, w = ii(rep[0]), ii(rep[1]), dd(rep[2]), dd(rep[3]), ii(rep[4]), ii(rep[5])
        P, G = len(ps), len(gs)
        at = lambda l, i, j: l[i * G + j]
        let = c.let_metric_config.enabled
        for i in range(P):
            for j in range(G):
                o, q = p[ps[i]].object, g[gs[j]].object
                x, a = at(iou, i, j), at(aff, i, j)
                H.check('iou-range', 0 <= x <= 1, 'IoU %r' % x)
                H.check('type', o.type == q.type or x == 0, lambda: 'IoU %r between types %d and %d' % (x, o.type, q.type))
                th = c.iou_thresholds[o.type]
                want = x >= th and (not let or a != 0)
                H.check('gate', bool(at(can, i, j)) == want, lambda: 'CanMatch(%d,%d)=%d with IoU %r, threshold %r of type %d, affinity %r' % (ps[i], gs[j], at(can, i, j), x, th, o.type, a))
                ww = x * (a if let else 1) * 1e6
                H.check('weight', abs(at(w, i, j) - ww) <= .5 + 1e-6 * abs(ww) + .02, lambda: 'MatchingWeight(%d,%d)=%d, expected about %r' % (ps[i], gs[j], at(w, i, j), ww))
                H.check('affinity', (0 <= a <= 1) and (let or a == 1), 'affinity %r' % a)
        if mask & 1 == 0:
            if not H.check('size', len(pm) == P, 'prediction matches has %d entries for %d predictions' % (len(pm), P)):
                return
            for i, j in enumerate(pm):
                H.check('pd-entry', j == -1 or 0 <= j < G and at(can, i, j), lambda: 'prediction %d matched to %d (can match: %s)' % (i, j, 0 <= j < G and at(can, i, j)))
        if mask & 2 == 0:
            if not H.check('size', len(gm) == G, 'ground-truth matches has %d entries for %d ground truths' % (len(gm), G)):
                return
            for j, i in enumerate(gm):
                H.check('gt-entry', i == -1 or 0 <= i < P and at(can, i, j), lambda: 'ground truth %d matched to %d' % (j, i))
        if mask == 3:
            return
        if mask == 0:
            ok = H.check('agree', all(i == -1 or 0 <= i < P and pm[i] == j for j, i in enumerate(gm)) and all(j == -1 or 0 <= j < G and gm[j] == i for i, j in enumerate(pm)),
                         lambda: 'the two directions disagree: %s / %s' % (pm, gm))
            if not ok:
                return
        else:
            x = pm if mask == 2 else gm
            x = [v for v in x if v != -1]
            if not H.check('one-to-one', len(set(x)) == len(x), lambda: 'two entries share a partner: %s' % x):
                return
        pairs = [(i, j) for i, j in enumerate(pm) if j != -1] if mask & 1 == 0 else [(i, j) for j, i in enumerate(gm) if i != -1]
        if c.matcher_type == 1:
            n = max(P, G)
            if n:
                e = [0] * (n * n)
                for i in range(P):
                    for j in range(G):
                        e[i * n + j] = at(w, i, j) if at(can, i, j) else 0
                tot = sum(at(w, i, j) for i, j in pairs)
                H.check('optimal', tot == c01.best(n, e), lambda: 'total weight %d of %s, the optimum is %d' % (tot, pairs, c01.best(n, e)))
        else:
            sc = [p[k].score for k in ps]
            for i in range(P):
                for j in range(G):
                    if at(can, i, j) and (pm[i] == -1 or at(w, i, j) > at(w, i, pm[i])):
                        H.check('greedy', gm[j] != -1 and sc[gm[j]] >= sc[i],
                                lambda: 'prediction %d (score %r) got %d although ground truth %d has a larger weight and went to %d (score %r)' % (
                                    i, sc[i], pm[i], j, gm[j], sc[gm[j]] if gm[j] >= 0 else None))
    H.phases((1, one))

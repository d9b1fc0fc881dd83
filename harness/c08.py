"""C08: detection measurements recounted from the published shard definitions and the matcher's own result."""
import math
import gen
from h import I, ii, dd, x1, n1, f32
from gen import metrics_pb2
import c02
import c07

RULE = ('random frames of up to 10 objects per side with difficulty levels, no-label zones, tied scores and speeds; every breakdown, both matchers, with and without '
        'LET and details; shards come from the published buckets (cases within rounding of a bucket edge are skipped) and matches from the real matcher on those subsets')


def config(r, let=None, gens=None, n=None):
    c = c02.config(r, let=let)
    G = gen.gens()
    ids = gens or r.sample([k for k in G if c.box_type != 3 or k != 'CAMERA'], r.randint(1, 3))
    for k in ids:
        c.breakdown_generator_ids.append(G[k])
        d = c.difficulties.add()
        d.levels.extend(r.choice([[], [1], [2], [1, 2], [2, 1]]))
    n = n if n is not None else r.choice([1, 2, 4])
    c.score_cutoffs.extend(sorted(r.choice([0.0, .1, .25, .5, .500001, .75, .9, 1.0, round(r.random(), 3)]) for _ in range(n)))
    c.include_details_in_measurements = r.random() < .6
    return c, ids


def dress(r, l, gt, pre=''):
    """ids, difficulty levels, speeds, so that breakdowns and levels matter"""
    for k, o in enumerate(l):
        o.object.id = '%s%s%d' % (pre, 'g' if gt else 'p', k)
        if gt:
            if r.random() < .7:
                o.object.detection_difficulty_level = r.choice([1, 2, 2, 0])
            if r.random() < .7:
                o.object.tracking_difficulty_level = r.choice([1, 2, 2, 0])
            if r.random() < .9:
                o.object.metadata.speed_x = r.choice([0, .1, .5, 2, 5, -20, r.uniform(-15, 15)])
                o.object.metadata.speed_y = r.choice([0, -.1, 2])
        if r.random() < .5:
            o.object.most_visible_camera_name = r.choice(gen.CAMS)
        if r.random() < .1:
            o.camera_name = r.choice([1, 2, 3, 4, 5])


def heading_acc(a, b):
    d = math.fabs(math.remainder(a - b, 2 * math.pi))
    return 1 - d / math.pi


def subset(name, shard, l, matching):
    """indices of l in the shard; None when an object is at an edge"""
    out = []
    for k, o in enumerate(l):
        s, m = c07.expect(name, o)
        if matching and name in ('VELOCITY', 'CAMERA'):
            if m is None or None in m:
                return None
            if shard in m:
                out.append(k)
        else:
            if s is None:
                return None
            if s == shard:
                out.append(k)
    return out


def run(H):
    r = H.r
    G = gen.gens()

    def frame():
        c, ids = config(r)
        p, g = c02.scene(r, c.box_type == 3, r.choice([2.0, 6.0, 30.0]), 10)
        dress(r, p, False)
        dress(r, g, True)
        # objects of unknown type take part in ONE_SHARD and ALL_BUT_SIGN only
        ms_desc = lambda: dict(config=gen.show(c), predictions=[gen.show(x) for x in p], ground_truths=[gen.show(x) for x in g])
        H.case(ms_desc, key=(H.round, H.evals), nontrivial=bool(p and g))
        rep = H.call('det_meas', c, gen.objs(p), gen.objs(g))
        out = []
        for b in rep:
            m = metrics_pb2.DetectionMeasurements()
            m.ParseFromString(b)
            out.append(m)
        # with a velocity breakdown, predictions without speeds take the nearest ground truth's
        p2 = p
        if 'VELOCITY' in ids and p and not p[0].object.metadata.HasField('accel_x'):
            p2 = []
            for o in p:
                q = type(o)()
                q.CopyFrom(o)
                if g:
                    dist = lambda x: math.dist((x.object.box.center_x, x.object.box.center_y, x.object.box.center_z), (o.object.box.center_x, o.object.box.center_y, o.object.box.center_z))
                    n = min(g, key=dist)
                    q.object.metadata.speed_x, q.object.metadata.speed_y = n.object.metadata.speed_x, n.object.metadata.speed_y
                p2.append(q)
        pos = 0
        for bi, name in enumerate(ids):
            gto = name in ('VELOCITY', 'CAMERA')
            levels = list(c.difficulties[bi].levels) or [2]
            for shard in range(dict(ONE_SHARD=1, OBJECT_TYPE=4, RANGE=12, VELOCITY=20, ALL_BUT_SIGN=2, SIZE=8, CAMERA=20)[name]):
                here = out[pos:pos + len(levels)]
                pos += len(levels)
                if not H.check('shape', len(here) == len(levels), lambda: 'only %d measurements' % len(out)):
                    return
                for m, lv in zip(here, levels):
                    H.check('breakdown', (m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level) == (G[name], shard, lv),
                            lambda: 'breakdown %s where %s shard %d level %d was expected' % (gen.show(m.breakdown), name, shard, lv))
                    H.check('cutoffs', [x.score_cutoff for x in m.measurements] == list(c.score_cutoffs), lambda: 'cutoffs %s, configured %s' % ([x.score_cutoff for x in m.measurements], list(c.score_cutoffs)))
                gs = subset(name, shard, g, True)
                ps = subset(name, shard, p2, True)
                if gs is None or ps is None:
                    continue
                if not ps and not gs:
                    for m in here:
                        for x in m.measurements:
                            H.check('empty', (x.num_tps, x.num_fps, x.num_fns) == (0, 0, 0), lambda: '%s shard %d holds no object but reports %s' % (name, shard, gen.show(x)))
                    continue
                for ci, cut in enumerate(c.score_cutoffs):
                    pc = [k for k in ps if f32(p[k].score) >= cut]
                    one(H, c, name, shard, gto, p2, g, pc, gs, [m.measurements[ci] for m in here], levels)
        H.check('shape', pos == len(out), lambda: '%d measurements, expected %d' % (len(out), pos))

    def one(H, c, name, shard, gto, p, g, ps, gs, ms, levels):
        rep = H.call('match', c, gen.objs(p), gen.objs(g), I(ps), I(gs), I([0, 0, 0]))
        H.d.log.pop()
        pm, gm, iou, aff = ii(rep[0]), ii(rep[1]), dd(rep[2]), dd(rep[3])
        where = lambda: '%s shard %d cutoff with predictions %s, ground truths %s, matches %s' % (name, shard, ps, gs, pm)
        inb = [c07.expect(name, g[k])[0] == shard if gto else True for k in gs]
        if gto and any(c07.expect(name, g[k])[0] is None for k in gs):
            return
        tp = [i for i, j in enumerate(pm) if j >= 0 and inb[j]]
        fp = []
        for i, j in enumerate(pm):
            if j >= 0 or p[ps[i]].overlap_with_nlz:
                continue
            if gto:
                row = iou[i * len(gs):(i + 1) * len(gs)]
                best = max(row, default=0)
                if best >= .01:
                    last = max(k for k, v in enumerate(row) if v == best)
                    if any(abs(v - best) < 1e-9 and inb[k] != inb[last] for k, v in enumerate(row)):
                        return      # tied overlaps with ground truths of both kinds
                    if abs(best - .01) < 1e-9:
                        return
                    if not inb[last]:
                        continue
            fp.append(i)
        let = c.let_metric_config.enabled
        ha = [heading_acc(p[ps[i]].object.box.heading, g[gs[pm[i]]].object.box.heading) for i in tp]
        la = [aff[i * len(gs) + pm[i]] if let else 1.0 for i in tp]
        for m, lv in zip(ms, levels):
            fn = [j for j, i in enumerate(gm) if i < 0 and inb[j] and g[gs[j]].object.detection_difficulty_level <= lv]
            H.check('tp', m.num_tps == len(tp), lambda: 'reports %d true positives, counted %d: %s' % (m.num_tps, len(tp), where()))
            H.check('fp', m.num_fps == len(fp), lambda: 'reports %d false positives, counted %d: %s' % (m.num_fps, len(fp), where()))
            H.check('fn', m.num_fns == len(fn), lambda: 'reports %d false negatives at level %d, counted %d: %s' % (m.num_fns, lv, len(fn), where()))
            elig = sum(inb[j] and (gm[j] >= 0 or g[gs[j]].object.detection_difficulty_level <= lv) for j in range(len(gs)))
            H.check('conserve', m.num_tps + m.num_fns == elig, lambda: 'TP %d + FN %d is not the %d eligible ground truths: %s' % (m.num_tps, m.num_fns, elig, where()))
            H.check('heading', abs(m.sum_ha - sum(ha)) < 1e-4, lambda: 'sum of heading accuracies %r, expected %r: %s' % (m.sum_ha, sum(ha), where()))
            H.check('affinity', abs(m.sum_longitudinal_affinity - sum(la)) < 1e-4, lambda: 'sum of affinities %r, expected %r: %s' % (m.sum_longitudinal_affinity, sum(la), where()))
            if c.include_details_in_measurements:
                if not H.check('details', len(m.details) == 1, 'no details'):
                    continue
                d = m.details[0]
                gi, pi = (lambda k: g[gs[k]].object.id), (lambda k: p[ps[k]].object.id)
                H.check('ids-tp', list(d.tp_pr_ids) == [pi(i) for i in tp] and list(d.tp_gt_ids) == [gi(pm[i]) for i in tp], lambda: 'TP details %s / %s: %s' % (list(d.tp_pr_ids), list(d.tp_gt_ids), where()))
                H.check('ids-fp', list(d.fp_ids) == [pi(i) for i in fp], lambda: 'FP details %s, expected %s: %s' % (list(d.fp_ids), [pi(i) for i in fp], where()))
                H.check('ids-fn', list(d.fn_ids) == [gi(j) for j in fn], lambda: 'FN details %s, expected %s: %s' % (list(d.fn_ids), [gi(j) for j in fn], where()))
                H.check('det-iou', len(d.tp_ious) == len(tp) and all(abs(x - iou[i * len(gs) + pm[i]]) < 1e-5 for x, i in zip(d.tp_ious, tp)), lambda: 'TP IoUs %s: %s' % (list(d.tp_ious), where()))
                H.check('det-ha', len(d.tp_heading_accuracies) == len(tp) and all(abs(x - y) < 1e-5 for x, y in zip(d.tp_heading_accuracies, ha)), lambda: 'TP heading accuracies: %s' % where())
                H.check('det-la', len(d.tp_longitudinal_affinities) == len(tp) and all(abs(x - y) < 1e-5 for x, y in zip(d.tp_longitudinal_affinities, la)), lambda: 'TP affinities: %s' % where())
            else:
                H.check('no-details', len(m.details) == 0, 'details although not configured')

    def heading():
        a, b = [r.choice([0, math.pi, -math.pi, 3 * math.pi, .1, 2 * math.pi - .1, r.uniform(-20, 20), r.uniform(-4, 4)]) for _ in range(2)]
        if r.random() < .2:
            b = a + r.choice([math.pi, -math.pi, 2 * math.pi, 0])
        c = c02.config(r)
        o, q = gen.obj(r), gen.obj(r)
        o.object.box.heading, q.object.box.heading = a, b
        H.case(lambda: ['heading accuracy', a, b], key=(a, b))
        x = x1(H.call('heading', gen.objs([o]), gen.objs([q]), c)[0])
        H.check('heading-accuracy', 0 <= x <= 1 and abs(x - heading_acc(a, b)) < 1e-5, lambda: 'heading accuracy %r of %r and %r, expected %r' % (x, a, b, heading_acc(a, b)))

    def subsets():
        c, ids = config(r)
        l = [c07.obj(r) for _ in range(r.randint(0, 8))]
        for o in l:
            o.score = r.choice(list(c.score_cutoffs) + [r.random()])
        gt, det = r.randint(0, 1), r.randint(0, 1)
        H.case(lambda: dict(config=gen.show(c), objects=[gen.show(o) for o in l], is_gt=gt, is_detection=det), key=(H.round, H.evals))
        rep = H.call('subsets', c, gen.objs(l), gt, det)
        k = 0
        for bi, name in enumerate(ids):
            for shard in range(dict(ONE_SHARD=1, OBJECT_TYPE=4, RANGE=12, VELOCITY=20, ALL_BUT_SIGN=2, SIZE=8, CAMERA=20)[name]):
                i, s, n = ii(rep[k])
                lists = [ii(x) for x in rep[k + 1:k + 1 + n]]
                k += 1 + n
                H.check('subset-head', (i, s, n) == (bi, shard, 1 if gt else len(c.score_cutoffs)), lambda: 'subset header %s' % [i, s, n])
                w = subset(name, shard, l, det)
                if w is None:
                    continue
                for q, x in enumerate(lists):
                    e = w if gt else [j for j in w if l[j].score >= c.score_cutoffs[q]]
                    H.check('subset', x == e, lambda: '%s shard %d: subset %s, expected %s' % (name, shard, x, e))
    # unknown-typed objects are not allowed in shards of per-type, always-listed breakdowns
    _obj = c07.obj

    def typed(rr):
        o = _obj(rr)
        if o.object.type == 0:
            o.object.type = 2
        return o
    c07.obj = typed

    def speed():
        p, g = c02.scene(r, False, 6.0, 6)
        H.case(lambda: dict(predictions=[gen.show(x) for x in p], ground_truths=[gen.show(x) for x in g]), key=(H.round, H.evals))
        rep = H.call('speed', gen.objs(p), gen.objs(g))
        H.check('speed-count', len(rep) == len(p), '%d objects for %d' % (len(rep), len(p)))
        for b, o in zip(rep, p):
            q = metrics_pb2.Object()
            q.ParseFromString(b)
            dist = lambda x: math.dist((x.object.box.center_x, x.object.box.center_y, x.object.box.center_z), (o.object.box.center_x, o.object.box.center_y, o.object.box.center_z))
            best = min((dist(x) for x in g), default=None)
            near = [(x.object.metadata.speed_x, x.object.metadata.speed_y) for x in g if dist(x) < best + 1e-3] if g else [(0, 0)]
            s = (q.object.metadata.speed_x, q.object.metadata.speed_y)
            H.check('speed', s in near, lambda: 'speed %s, the nearest ground truths have %s' % (s, near))
            q.object.metadata.speed_x, q.object.metadata.speed_y = o.object.metadata.speed_x, o.object.metadata.speed_y
            for f in ('speed_x', 'speed_y'):
                if not o.object.metadata.HasField(f):
                    q.object.metadata.ClearField(f)
            if not o.object.HasField('metadata'):
                q.object.ClearField('metadata')
            H.check('speed-frame', q == o, lambda: 'other fields changed: %s from %s' % (gen.show(q), gen.show(o)))
    H.phases((10, frame), (1, heading), (3, subsets), (1, speed))

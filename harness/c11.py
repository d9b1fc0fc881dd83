"""C11: multi-object tracking replayed frame by frame: the correspondence of both sides, carried tracks, counts, identity switches."""
import math
import gen
from h import I, ii, dd, f32
from gen import metrics_pb2
import c02
import c07
import c08

RULE = ('random tracks over 1-8 frames with missing, swapped, duplicated and returning ids, no-label zones and difficulty levels, both matchers; the evaluator is replayed '
        'from the reported pairs and the real matcher; whole evaluations are replayed per breakdown, level and cutoff')
SH = dict(ONE_SHARD=1, OBJECT_TYPE=4, RANGE=12, VELOCITY=20, ALL_BUT_SIGN=2, SIZE=8, CAMERA=20)


class Replay:
    """history of one evaluation: who each ground-truth track was last matched to"""
    def __init__(self, H, c, level, where):
        self.H, self.c, self.level, self.where = H, c, level, where
        self.last, self.cnt, self.cost, self.f = {}, dict.fromkeys(('num_misses', 'num_fps', 'num_mismatches', 'num_matches', 'num_objects_gt'), 0), 0.0, 0

    def matcher(self, p, g, ps, gs):
        rep = self.H.call('match', self.c, gen.objs(p), gen.objs(g), I(ps), I(gs), I([0, 0, 0]))
        self.H.d.log.pop()
        G = len(gs)
        f = lambda l: {(ps[i], gs[j]): l[i * G + j] for i in range(len(ps)) for j in range(G)}
        return ii(rep[0]), f(dd(rep[2])), f(ii(rep[4])), f(ii(rep[5]))

    def step(self, p, g, ps, gs, d):
        """d: details of the frame, or None: then the pairs are the matcher's (deterministic cases only); False: cannot go on"""
        H, where = self.H, lambda: '%s, frame %d' % (self.where(), self.f)
        self.f += 1
        pi, gi = {}, {}
        for k in ps:
            pi.setdefault(p[k].object.id, k)
        for k in gs:
            gi[g[k].object.id] = k
        _, iou, can, w = self.matcher(p, g, sorted(pi.values()), sorted(gi.values()))
        kept = {a: b for a, b in self.last.items() if a in gi and b in pi and can[pi[b], gi[a]]}
        rp = sorted(k for n, k in pi.items() if n not in kept.values())
        rg = sorted(k for n, k in gi.items() if n not in kept)
        m, _, _, _ = self.matcher(p, g, rp, rg)
        tied = any(abs(iou[k, a] - iou[k, b]) < 1e-6 and can[k, a] for k in rp for a in rg for b in rg if a != b)
        want = {g[rg[j]].object.id: p[rp[i]].object.id for i, j in enumerate(m) if j >= 0}
        if d is not None:
            got = dict(zip(d.tp_gt_ids, d.tp_pred_ids))
            one = len(d.tp_gt_ids) == len(d.tp_pred_ids) == len(got) == len(set(got.values()))
            if not H.check('one-to-one', one, lambda: 'reported pairs %s / %s: %s' % (list(d.tp_gt_ids), list(d.tp_pred_ids), where())):
                return False
            if not H.check('known', all(a in gi and b in pi for a, b in got.items()), lambda: 'reported pairs %s name absent tracks: %s' % (got, where())):
                return False
            H.check('gate', all(can[pi[b], gi[a]] for a, b in got.items()), lambda: 'reported pairs %s include one that cannot match: %s' % (got, where()))
            H.check('carried', all(got.get(a) == b for a, b in kept.items()), lambda: 'correspondences %s still hold but the pairs are %s: %s' % (kept, got, where()))
            rest = {a: b for a, b in got.items() if a not in kept}
            if self.c.matcher_type == 1:
                x, y = [sum(w[pi[b], gi[a]] for a, b in q.items()) for q in (rest, want)]
                H.check('optimal', x == y, lambda: 'pairs %s weigh %d, the matcher finds %d (%s): %s' % (rest, x, y, want, where()))
            elif len({p[k].score for k in rp}) == len(rp) and not tied:
                H.check('greedy', rest == want, lambda: 'pairs %s, the matcher finds %s: %s' % (rest, want, where()))
            H.check('detail-fn', sorted(d.fn_gt_ids) == sorted(a for a in gi if a not in got), lambda: 'unmatched ground truths %s of %s, pairs %s: %s' % (list(d.fn_gt_ids), sorted(gi), got, where()))
            H.check('detail-fp', sorted(d.fp_pred_ids) == sorted(b for b in pi if b not in got.values()), lambda: 'unmatched predictions %s of %s, pairs %s: %s' % (list(d.fp_pred_ids), sorted(pi), got, where()))
        else:
            if self.c.matcher_type == 1:
                # only when every pair stands alone: the best matching is then unique
                pairs = [q for q in ((k, l) for k in rp for l in rg) if can[q]]
                if len({k for k, _ in pairs}) < len(pairs) or len({l for _, l in pairs}) < len(pairs):
                    return False
            elif tied or len({p[k].score for k in rp}) != len(rp):
                return False
            got = dict(kept, **want)
        C = self.cnt
        free = [k for n, k in gi.items() if n not in got]
        miss = [k for k in free if g[k].object.tracking_difficulty_level <= self.level]
        C['num_misses'] += len(miss)
        C['num_objects_gt'] += len(gi) - len(free) + len(miss)
        C['num_matches'] += len(got)
        C['num_fps'] += sum(1 for n, k in pi.items() if n not in got.values() and not p[k].overlap_with_nlz)
        inv = {b: a for a, b in self.last.items()}
        for a, b in got.items():
            C['num_mismatches'] += (a in self.last and self.last[a] != b) + (b in inv and inv[b] != a and inv[b] not in gi)
            self.cost += 1 - iou[pi[b], gi[a]]
        for a, b in got.items():
            o = inv.get(b)
            if o is not None and o not in got:
                self.last.pop(o, None)
        self.last.update(got)
        return True

    def compare(self, m):
        for k, v in self.cnt.items():
            self.H.check(k, getattr(m, k) == v, lambda: '%s is %d, replayed %d: %s' % (k, getattr(m, k), v, self.where()))
        self.H.check('conserve-gt', m.num_matches + m.num_misses == m.num_objects_gt, lambda: 'matches %d + misses %d, ground truths %d: %s' % (m.num_matches, m.num_misses, m.num_objects_gt, self.where()))
        self.H.check('cost', abs(m.matching_cost - self.cost) < 1e-4, lambda: 'matching cost %r, replayed %r: %s' % (m.matching_cost, self.cost, self.where()))


def run(H):
    r = H.r
    G = gen.gens()

    def tracks(c, n, k):
        """frames of tracks; predictions follow ground truths, with swaps, gaps, and other names"""
        al = c.box_type == 3
        base = [gen.obj(r, r.choice([1.5, 4.0]), aligned=al, types=(1, 1, 2)) for _ in range(r.randint(1, k))]
        name = {q: 'p%d' % q for q in range(len(base))}
        P, Q = [], []
        for f in range(n):
            p, g = [], []
            if r.random() < .3 and len(base) > 1:
                a, b = r.sample(range(len(base)), 2)
                name[a], name[b] = name[b], name[a]
            if r.random() < .2:
                name[r.randrange(len(base))] = r.choice(['n%d' % r.randrange(3), 'p%d' % r.randrange(len(base)), 'g0'])
            for q, o in enumerate(base):
                o.object.box.center_x += r.choice([0, 0, r.uniform(-.4, .4)])
                o.object.box.center_y += r.choice([0, 0, r.uniform(-.4, .4)])
                if r.random() < .8:
                    x = type(o)()
                    x.CopyFrom(o)
                    x.object.id, x.frame_timestamp_micros = 'g%d' % q, f
                    x.ClearField('overlap_with_nlz')
                    if r.random() < .6:
                        x.object.tracking_difficulty_level = r.choice([0, 1, 2, 2])
                    g.append(x)
                if r.random() < .8:
                    x = gen.obj(r, 4.0, near=o, aligned=al, score=round(r.random(), 4), types=(1, 1, 2))
                    x.object.id, x.frame_timestamp_micros = name[q], f
                    p.append(x)
            if r.random() < .2:
                x = gen.obj(r, 2.0, aligned=al, score=round(r.random(), 4))
                x.object.id = 'x%d' % r.randrange(2)
                p.append(x)
            r.shuffle(p)
            r.shuffle(g)
            P.append(p)
            Q.append(g)
        return P, Q

    def uniq(p):
        s = set()
        return [o for o in p if not (o.object.id in s or s.add(o.object.id))]

    def history():
        c = c02.config(r)
        c.iou_thresholds[:] = [0.0] + [r.choice([.05, .2, .4])] * 4
        n = r.choice([1, 2, 3, 5, 8])
        P, Q = tracks(c, n, r.choice([1, 2, 3, 5]))
        if r.random() < .7:
            P = [uniq(p) for p in P]
        level = r.choice([1, 2])
        H.case(lambda: dict(config=gen.show(c), level=level, pds=[[gen.show(o) for o in l] for l in P], gts=[[gen.show(o) for o in l] for l in Q]), key=(H.round, H.evals), nontrivial=n > 1)
        rep = H.call('mot', c, level, n, *[gen.objs(l) for l in P + Q])
        R = Replay(H, c, level, lambda: 'a sequence of %d frames at level %d' % (n, level))
        for f in range(n):
            m = metrics_pb2.TrackingMeasurement()
            m.ParseFromString(rep[f])
            if not H.check('details', len(m.details) == f + 1, lambda: '%d details after %d frames' % (len(m.details), f + 1)):
                return
            if not R.step(P[f], Q[f], list(range(len(P[f]))), list(range(len(Q[f]))), m.details[f]):
                return
            R.compare(m)

    def whole():
        c, ids = c08.config(r)
        c.iou_thresholds[:] = [0.0] + [r.choice([.05, .2, .4])] * 4
        n = r.choice([0, 1, 2, 3, 5])
        P, Q = tracks(c, n, 4)
        P = [uniq(p) for p in P]
        for l in P + Q:
            for o in l:
                if r.random() < .5:
                    o.object.most_visible_camera_name = r.choice(gen.CAMS)
        if 'VELOCITY' in ids:  # speeds of predictions are given (estimation has its own contract)
            for l in P:
                for o in l:
                    o.object.metadata.speed_x = r.choice([0, .1, .5, 2, 5, -20])
        H.case(lambda: dict(config=gen.show(c), pds=[[gen.show(o) for o in l] for l in P], gts=[[gen.show(o) for o in l] for l in Q]), key=(H.round, H.evals), nontrivial=n > 1)
        rep = H.call('trk_meas', c, n, *[gen.objs(l) for l in P + Q])
        out = []
        for b in rep:
            out.append(metrics_pb2.TrackingMeasurements())
            out[-1].ParseFromString(b)
        pos = 0
        if n == 0:
            H.check('no-frame', not out, lambda: '%d measurements of no frame' % len(out))
            return
        for bi, name in enumerate(ids):
            levels = list(c.difficulties[bi].levels) or [2]
            for shard in range(SH[name]):
                here = out[pos:pos + len(levels)]
                pos += len(levels)
                if not H.check('shape', len(here) == len(levels), lambda: 'only %d lists' % len(out)):
                    return
                sub = [(c08.subset(name, shard, P[f], False), c08.subset(name, shard, Q[f], False)) for f in range(n)]
                for m, lv in zip(here, levels):
                    H.check('breakdown', (m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level) == (G[name], shard, lv),
                            lambda: 'breakdown %s where %s shard %d level %d was expected' % (gen.show(m.breakdown), name, shard, lv))
                    H.check('cutoffs', [x.score_cutoff for x in m.measurements] == list(c.score_cutoffs), lambda: 'cutoffs %s, configured %s' % ([x.score_cutoff for x in m.measurements], list(c.score_cutoffs)))
                    if any(x is None for s in sub for x in s):
                        continue
                    if len(m.measurements) != len(c.score_cutoffs):
                        continue
                    if not any(x for s in sub for x in s):
                        H.check('empty', all(not any(getattr(x, k) for k in ('num_matches', 'num_fps', 'num_misses', 'num_mismatches')) for x in m.measurements), lambda: '%s shard %d holds no object but reports %s' % (name, shard, gen.show(m)))
                        continue
                    for cut, x in zip(c.score_cutoffs, m.measurements):
                        H.check('detail-frames', len(x.details) == (n if c.include_details_in_measurements else 0), lambda: '%d details of %d frames' % (len(x.details), n))
                        R = Replay(H, c, lv, lambda: '%s shard %d level %d cutoff %r of %d frames' % (name, shard, lv, cut, n))
                        for f in range(n):
                            d = x.details[f] if len(x.details) == n else None
                            if not R.step(P[f], Q[f], [k for k in sub[f][0] if f32(P[f][k].score) >= cut], sub[f][1], d):
                                break
                        else:
                            R.compare(x)
        H.check('shape', pos == len(out), lambda: '%d lists, expected %d' % (len(out), pos))
    H.phases((5, history), (3, whole))

"""C16: breakdown names of the C++ and Python implementations against the metrics they name."""
import gen
import mo
import c08
from h import I, ii, n1
from waymo_open_dataset.protos import metrics_pb2, motion_metrics_pb2 as mp
from waymo_open_dataset.metrics.python import config_util_py as cu

RULE = 'random lists of up to seven breakdown generators (repeats included) each with 0-3 difficulty levels in any order; motion configurations of 0-4 steps; detection, tracking and motion metrics of random objects'
T = ['TYPE_VEHICLE', 'TYPE_PEDESTRIAN', 'TYPE_SIGN', 'TYPE_CYCLIST']
SUB = {3: ('RANGE', ['[0, 30)', '[30, 50)', '[50, +inf)']), 9: ('SIZE', ['small', 'large']), 7: ('VELOCITY', ['STATIONARY', 'SLOW', 'MEDIUM', 'FAST', 'VERY_FAST']),
       10: ('CAMERA', ['FRONT', 'FRONT-LEFT', 'FRONT-RIGHT', 'SIDE-LEFT', 'SIDE-RIGHT'])}
LV = ['UNKNOWN', 'LEVEL_1', 'LEVEL_2']


def shards(g):
    if g == 1:
        return ['ONE_SHARD']
    if g == 8:
        return ['ALL_BUT_SIGN', 'SIGN']
    if g == 2:
        return ['OBJECT_TYPE_' + t for t in T]
    n, l = SUB[g]
    return ['%s_%s_%s' % (n, t, x) for t in T for x in l]


def run(H):
    r = H.r

    def fill(c, repeat):
        gs = list(gen.gens().values())
        gs = [r.choice(gs) for _ in range(r.randint(1, 7))] if repeat else r.sample(gs, r.randint(1, 7))
        del c.breakdown_generator_ids[:]
        del c.difficulties[:]
        for g in gs:
            c.breakdown_generator_ids.append(g)
            c.difficulties.add().levels.extend(r.sample([1, 2], r.randint(0, 2)) if r.random() < .8 else r.sample([0, 1, 2], r.randint(1, 3)))
        return gs

    def want(c):
        out = []
        for g, d in zip(c.breakdown_generator_ids, c.difficulties):
            for s, n in enumerate(shards(g)):
                for l in list(d.levels) or [2]:
                    out.append((g, s, l, '%s_%s' % (n, LV[l])))
        return out

    def compare(c):
        w = want(c)
        n = [x.decode() for x in H.call('names', c)]
        H.check('C++ names', n == [x[3] for x in w], lambda: 'names %s, expected %s' % (n, [x[3] for x in w]))
        p = list(cu.get_breakdown_names_from_config(c))
        H.check('Python names', p == n, lambda: 'Python gives %s, C++ %s' % (p, n))
        if len(set(x[:3] for x in w)) == len(w):
            H.check('distinct', len(set(n)) == len(n) and len(set(p)) == len(p), lambda: 'repeated names in %s' % n)
        return w

    def names():
        c = metrics_pb2.Config()
        fill(c, r.random() < .3)
        H.case(lambda: ['names', gen.show(c)])
        compare(c)

    def metrics():
        c, _ = c08.config(r, n=1)
        fill(c, False)
        track = r.random() < .4
        objs = []
        for _ in range(2):
            l = [gen.obj(r, frame=1) for _ in range(r.randint(0, 5))]
            for q, o in enumerate(l):
                o.object.id = str(q)
                o.object.detection_difficulty_level = o.object.tracking_difficulty_level = r.choice([1, 2])
            objs.append(l)
        H.case(lambda: ['tracking' if track else 'detection', gen.show(c), [[gen.show(o) for o in l] for l in objs]])
        w = compare(c)
        P, G = [gen.objs(l) for l in objs]
        rep = H.call('trk_metrics', c, I([1]), P, G) if track else H.call('det_metrics', c, 1, P, G)
        got = []
        for b in rep:
            m = metrics_pb2.TrackingMetrics() if track else metrics_pb2.DetectionMetrics()
            m.ParseFromString(b)
            got.append((m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level))
        H.check('metric order', got == [x[:3] for x in w], lambda: 'metrics reported for %s, names are of %s' % (got, [x[:3] for x in w]))

    def motion():
        c = mp.MotionMetricsConfig()
        for _ in range(r.randint(0, 4)):
            c.step_configurations.add().measurement_step = r.choice([0, 1, 5, 9, 10, 15, 100])
        H.case(lambda: ['motion', gen.show(c)])
        w = ['%s_%d' % (t, s.measurement_step) for t in ('TYPE_VEHICLE', 'TYPE_PEDESTRIAN', 'TYPE_CYCLIST') for s in c.step_configurations]
        n = [x.decode() for x in H.call('motion_names', c)]
        p = list(cu.get_breakdown_names_from_motion_config(c))
        H.check('C++ motion names', n == w, lambda: 'names %s, expected %s' % (n, w))
        H.check('Python motion names', p == w, lambda: 'Python gives %s, expected %s' % (p, w))
        if len(set(s.measurement_step for s in c.step_configurations)) == len(c.step_configurations):
            H.check('motion distinct', len(set(n)) == len(n), lambda: 'repeated names in %s' % n)

    def order():
        c = mo.config(r)
        ids = r.sample(range(1, 50), r.choice([1, 2, 4]))
        s = mo.scenario(r, c, ids)
        p = mo.predictions(r, c, s, [[i] for i in range(len(ids))])
        H.case(lambda: ['motion metrics', gen.show(c), gen.show(s), gen.show(p)])
        ok, b = H.call('motion_order', c, p, s)
        if not n1(ok):
            return
        v = ii(b)
        names = [x.decode() for x in H.call('motion_names', c)]
        TY = {1: 'TYPE_VEHICLE', 2: 'TYPE_PEDESTRIAN', 3: 'TYPE_CYCLIST'}
        got = ['%s_%d' % (TY.get(a), s) for a, s in zip(v[::2], v[1::2])]
        it = iter(names)
        H.check('motion order', all(g in it for g in got), lambda: 'metrics reported for %s, names are %s' % (got, names))
    H.phases((4, names), (3, metrics), (2, motion), (2, order))

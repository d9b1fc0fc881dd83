"""C10: cutoffs recomputed from the definition: N scores in n-1 buckets of near-equal size, the smallest score of each bucket, then 1."""
import gen
from h import D, I, dd, f32
from gen import metrics_pb2
import c08

RULE = 'random score sets (ties, 0 and 1, empty, single) for every desired number up to beyond the number of scores; detection and tracking evaluations of ragged shapes'


def buckets(sc, n):
    if n == 1:
        return [0.0]
    N = len(sc)
    if n >= N:
        return [k / (n - 1) for k in range(n)]
    out, left, pos = [], N, 0
    for b in range(n - 1):
        out.append(sc[pos])
        size = left // (n - 1 - b)
        left -= size
        pos += size
    return out + [1.0]


def run(H):
    r = H.r

    def score():
        return f32(r.choice([0, 1, .5, .25, round(r.random(), 1), round(r.random(), 1), r.random(), r.random(), r.random() ** 4]))

    def check(c, sc, n, where):
        w = buckets(sc, n)
        H.check('count', len(c) == n, lambda: '%d cutoffs, %d wanted: %s' % (len(c), n, where()))
        H.check('ascending', all(a <= b + 1e-6 for a, b in zip(c, c[1:])), lambda: 'cutoffs %s do not ascend: %s' % (c, where()))
        H.check('range', all(-1e-6 <= x <= 1 + 1e-6 for x in c), lambda: 'cutoffs %s leave [0, 1]: %s' % (c, where()))
        H.check('ends', n == 1 or abs(c[-1] - 1) < 1e-6, lambda: 'the last cutoff is %r: %s' % (c[-1], where()))
        if 1 < n < len(sc):
            S = set(sc)
            H.check('provenance', all(x in S for x in c[:-1]), lambda: 'cutoffs %s are not all scores: %s' % (c, where()))
            H.check('distinct', len(S) < len(sc) or len(set(c[1:-1])) == n - 2, lambda: 'interior cutoffs %s repeat: %s' % (c, where()))
        H.check('value', len(c) == len(w) and all(abs(a - b) < 1e-5 for a, b in zip(c, w)), lambda: 'cutoffs %s, expected %s: %s' % (c, w, where()))

    def decide():
        sc = sorted(score() for _ in range(r.choice([0, 1, 2, 3, 5, 9, 30, 60])))
        n = r.choice([1, 2, 3, 4, 7, 10, 11, 51, max(1, len(sc) - 1), max(1, len(sc)), len(sc) + 1])
        H.case(lambda: ['cutoffs', sc, n], key=(tuple(sc), n))
        check(dd(H.call('cutoffs', D(sc), n)[0]), sc, n, lambda: 'scores %s' % sc)

    def frames(k, top):
        out = []
        for _ in range(k):
            l = [gen.obj(r) for _ in range(r.randint(0, top))]
            for q, o in enumerate(l):
                o.score = score()
                o.object.id = str(q)
            out.append(l)
        return out

    def conf():
        c, _ = c08.config(r, n=1)
        del c.score_cutoffs[:]
        c.num_desired_score_cutoffs = r.choice([1, 2, 3, 5, 8, 20])
        return c

    def ev(kind, c, fr, rep):
        sc = sorted(o.score for l in fr for o in l)
        q = metrics_pb2.Config()
        q.ParseFromString(rep[0])
        where = lambda: '%s evaluation of %d frames' % (kind, len(fr))
        check(list(q.score_cutoffs), sc, c.num_desired_score_cutoffs, where)
        del q.score_cutoffs[:]
        H.check('frame', q == c, lambda: 'the rest of the configuration changed: %s' % where())

    def detection():
        c, k = conf(), r.randint(0, 6)
        p = frames(k, 5)
        H.case(lambda: dict(config=gen.show(c), detection=[[gen.show(o) for o in l] for l in p]), key=(H.round, H.evals))
        ev('detection', c, p, H.call('det_cutoffs', c, k, *[gen.objs(l) for l in p + [[]] * k]))

    def tracking():
        c = conf()
        shape = [r.randint(0, 4) for _ in range(r.randint(1, 5))]
        p = frames(sum(shape), r.choice([1, 4]))
        H.case(lambda: dict(config=gen.show(c), scenes=shape, tracking=[[gen.show(o) for o in l] for l in p]), key=(H.round, H.evals))
        ev('tracking', c, p, H.call('trk_cutoffs', c, I(shape), *[gen.objs(l) for l in p + [[]] * len(p)]))
    H.phases((3, decide), (2, detection), (3, tracking))

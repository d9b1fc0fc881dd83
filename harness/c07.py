"""C07: the published bucket definitions, evaluated on BreakdownGenerator::Create's generators."""
import math
from h import ii
import gen
from gen import Label

RULE = 'objects of every type at random and at bucket edges, with and without speeds and camera names'
TYPES = 4
CENTRES = [(0, 0), (45, 1), (-45, 2), (90, 3), (-90, 4)]


def obj(r):
    o = gen.metrics_pb2.Object()
    o.object.type = r.choice([0, 1, 2, 3, 4])
    b = o.object.box
    k = r.random()
    if k < .3:      # at and around the range edges
        d = r.choice([30, 50]) + r.choice([0, 0, 1e-9, -1e-9, 1e-3, -1e-3])
        b.center_x, b.center_y, b.center_z = r.choice([(d, 0, 0), (0, -d, 0), (d * .6, 0, d * .8), (-d * .6, d * .8, 0), (0, 0, d), (0, .6 * d, -.8 * d)])
    elif k < .6:    # around the FOV edges
        a = math.radians(r.choice([0, 45, -45, 90, -90, 135, 180, -135]) + r.choice([0, 25.2, -25.2, 25.1, -25.1, 25.3, -25.3, r.uniform(-30, 30)]) + r.choice([0, 1e-4, -1e-4]))
        d = r.choice([.1, 5, 100])
        b.center_x, b.center_y = d * math.cos(a), d * math.sin(a)
    else:
        b.center_x, b.center_y, b.center_z = r.uniform(-60, 60), r.uniform(-60, 60), r.choice([0, r.uniform(-60, 60)])
    b.length, b.width, b.height = [r.choice([7, 6.999999, 7.000001, 0, 1, 3, 12, r.uniform(0, 14)]) for _ in range(3)] if r.random() < .7 else r.choice([(7, 1, 1), (1, 7, 1), (1, 1, 7), (6.9, 6.9, 6.9)])
    m = o.object.metadata
    k = r.random()
    if k < .8:
        v = r.choice([.1, .2, .25, .999, 1, 1.001, 2.99, 3, 3.01, 9.99, 10, 10.01, 40, 0, r.uniform(0, 12)])
        a = r.uniform(-4, 4)
        m.speed_x, m.speed_y = (v * math.cos(a), v * math.sin(a)) if r.random() < .5 else r.choice([(v, 0), (0, v), (-v, 0), (0, -v)])
    if .6 < k < .85:
        m.accel_x, m.accel_y = 1, 1
    if k > .9:
        if r.random() < .5:
            m.speed_x = 5
        else:
            m.speed_y = 5
    if r.random() < .3:
        m.speed_z = 20
    k = r.random()
    if k < .3:
        o.camera_name = r.choice([0, 1, 2, 3, 4, 5])
    if k > .2 and k < .6:
        o.object.most_visible_camera_name = r.choice(gen.CAMS + ['', 'NO_SUCH', 'front'])
    return o


def bucket(x, edges):
    """bucket of x, or None within rounding of an edge"""
    for e in edges:
        if abs(x - e) < 1e-6 * max(1, abs(e)):
            return None
    return sum(x >= e for e in edges)


def fov(o):
    a = math.degrees(math.atan2(o.object.box.center_y, o.object.box.center_x))
    out = []
    for c, k in CENTRES:
        if abs(abs(a - c) - 25.2) < 1e-6:
            return None
        if abs(a - c) < 25.2:
            out.append(k)
    return out


def expect(n, o):
    """(shard, shards for matching); None = at an edge"""
    t = o.object.type
    b = o.object.box
    if n == 'ONE_SHARD':
        return 0, [0]
    if n == 'ALL_BUT_SIGN':
        s = 1 if t == Label.TYPE_SIGN else 0
        return s, [s]
    if n == 'OBJECT_TYPE':
        return t - 1, [t - 1]
    if t == 0:
        return -1, [-1] if n in ('RANGE', 'SIZE') else []
    if n == 'RANGE':
        x = math.sqrt(b.center_x ** 2 + b.center_y ** 2 + b.center_z ** 2)
        k = bucket(x, [30, 50])
        # exactly representable distances decide at the edge: [30, 50) and [50, inf)
        if k is None and x in (30.0, 50.0) and [b.center_x, b.center_y, b.center_z].count(0) == 2:
            k = 1 if x == 30 else 2
        s = None if k is None else 3 * (t - 1) + k
        return s, [s]
    if n == 'SIZE':
        s = 2 * (t - 1) + (1 if max(b.length, b.width, b.height) >= 7 else 0)
        return s, [s]
    if n == 'VELOCITY':
        m = o.object.metadata
        v = math.hypot(m.speed_x, m.speed_y) if m.HasField('speed_x') and m.HasField('speed_y') else 0
        k = bucket(v, [.2, 1, 3, 10])
        if k is None and v in (1, 3, 10) and (m.speed_x == 0 or m.speed_y == 0):
            k = {1: 2, 3: 3, 10: 4}[v]
        return (None if k is None else 5 * (t - 1) + k), [5 * (t - 1) + i for i in range(5)]
    if n == 'CAMERA':
        f = fov(o)
        mt = None if f is None else [5 * (t - 1) + k for k in f]
        if o.HasField('camera_name'):
            c = o.camera_name - 1
            s = 5 * (t - 1) + c if 0 <= c < 5 else -1
            return s, [s] if s >= 0 else []
        if o.object.HasField('most_visible_camera_name'):
            v = o.object.most_visible_camera_name
            c = gen.CAMS.index(v) - 1 if v in gen.CAMS else -1
            return (5 * (t - 1) + c if c >= 0 else -1), mt
        return (None if f is None else 5 * (t - 1) + f[0] if f else -1), mt


def run(H):
    r = H.r
    G = gen.gens()
    count = dict(ONE_SHARD=1, OBJECT_TYPE=4, RANGE=12, VELOCITY=20, ALL_BUT_SIGN=2, SIZE=8, CAMERA=20)

    def info():
        for n, v in G.items():
            H.case(['generator', n])
            rep = H.call('geninfo', v)
            i, c, gto = ii(rep[0])
            H.check('id', i == v, 'Create(%s).Id() is %d' % (n, i))
            H.check('count', c == count[n], '%s has %d shards, expected %d' % (n, c, count[n]))
            H.check('gt-only', bool(gto) == (n in ('VELOCITY', 'CAMERA')), '%s ground-truth-only=%d' % (n, gto))
        return False

    def batch():
        l = [obj(r) for _ in range(40)]
        n = r.choice(list(G))
        H.case(lambda: ['batch', n, gen.show(l[0])], key=(n, H.evals, H.round))
        rep = ii(H.call('shard', G[n], gen.objs(l))[0])
        k = 0
        for o in l:
            H.case(lambda: dict(generator=n, object=gen.show(o)), key=(n, gen.show(o)))
            s, m = rep[k], rep[k + 2:k + 2 + rep[k + 1]]
            k += 2 + rep[k + 1]
            es, em = expect(n, o)
            H.check('range', -1 <= s < count[n], '%s: shard %d outside [-1, %d)' % (n, s, count[n]))
            if es is not None:
                H.check('bucket:' + n, s == es, lambda: '%s: shard %d, the published bucket is %d' % (n, s, es))
            if em is not None and None not in em:
                H.check('matching:' + n, m == em, lambda: '%s: ShardsForMatching %s, expected %s' % (n, m, em))
            if n in ('VELOCITY', 'CAMERA'):
                H.check('matching-range:' + n, all(0 <= x < count[n] for x in m), '%s: ShardsForMatching lists %s' % (n, m))
    H.phases((1, info), (10, batch))

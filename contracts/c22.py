"""C22: map features drawn point by point (plot_maps.py)."""
from spec import *
from wodvc import py as P

MOD = 'waymo_open_dataset/utils/plot_maps.py'
i, q, t = z3.Ints('spec!i spec!q spec!t')
INT, BOOL = z3.IntSort(), z3.BoolSort()
LANE = {0: 0, 1: 1, 2: 2, 3: 3}
LINE = {0: 0, 1: 6, 2: 7, 3: 8, 4: 9, 5: 10, 6: 11, 7: 12, 8: 13}
EDGE = {0: 0, 1: 15, 2: 16}
KINDS = ['lane', 'road_line', 'road_edge', 'stop_sign', 'crosswalk', 'speed_bump', 'driveway']
STYLE = {0: ('black', 'solid'), 1: ('white', 'solid'), 2: ('royalblue', 'solid'), 3: ('magenta', 'solid'), 6: ('lightgray', 'dash'), 7: ('lightgray', 'solid'), 8: ('lightgray', 'solid'),
         9: ('yellow', 'dash'), 10: ('yellow', 'dash'), 11: ('yellow', 'solid'), 12: ('yellow', 'solid'), 13: ('yellow', 'dash'), 15: ('green', 'solid'), 16: ('green', 'solid'), 17: ('red', 'solid'),
         18: ('orange', 'solid'), 19: ('cyan', 'solid'), 20: ('blue', 'solid')}
AXES = ['x', 'y', 'z']


def line_types():
    """RoadLine type -> FeatureType; PASSING_DOUBLE_YELLOW is 8 in the proto"""
    return LINE


def lists(E, m):
    o = E.val(m)
    return {k: E.val(o.fields[k]) for k in AXES + ['types', 'ids']}


def at(s, k):
    try:
        return s[k]
    except P.EmptyElem:
        return None


def num(E, v):
    v = E.val(v)
    return v.t if isinstance(v, P.Enum) else P.term(v)


def table(t, d):
    r = z3.IntVal(-1)
    for a, b in d.items():
        r = If(t == a, z3.IntVal(b), r)
    return r


def has(f, k):
    return P.term(f['has_' + k])


def pick(f, vals, other):
    r = other
    for k in reversed(KINDS):
        r = If(has(f, k), vals[k], r)
    return r


class Model:
    """what is drawn for the list of features F"""
    def __init__(self, E, F, road_line):
        self.E, self.F = E, F
        self.C, self.T = E.func('points of feature', INT, INT), E.func('type of feature', INT, INT)
        self.V = {c: E.func('vertex %s' % c, INT, INT, z3.RealSort()) for c in AXES}
        self.T2, self.ID2 = E.func('type of vertex', INT, INT, INT), E.func('id of vertex', INT, INT, INT)
        self.ID = E.func('id of feature', INT, INT)
        self.pos = E.func('points before feature', INT, INT)
        self.road_line = road_line

    def ftype(self, k):
        f = self.F[k]
        T = lambda m, d: table(P.term(f[m]['type']), d)
        v = lambda x: z3.IntVal(x)
        return pick(f, dict(lane=T('lane', LANE), road_line=T('road_line', self.road_line), road_edge=T('road_edge', EDGE), stop_sign=v(17), crosswalk=v(18), speed_bump=v(19), driveway=v(20)), v(-1))

    def count(self, k):
        f = self.F[k]
        L = lambda m: f[m]['polyline'].n
        G = lambda m: If(f[m]['polygon'].n > 0, f[m]['polygon'].n + 1, I0)
        n = pick(f, dict(lane=L('lane'), road_line=L('road_line'), road_edge=L('road_edge'), stop_sign=z3.IntVal(1), crosswalk=G('crosswalk'), speed_bump=G('speed_bump'), driveway=G('driveway')), I0)
        return If(self.ftype(k) >= 0, n, I0)

    def vertex(self, k, j, c):
        f = self.F[k]
        L = lambda m: P.term(f[m]['polyline'][j][c])
        G = lambda m: P.term(f[m]['polygon'][If(j == f[m]['polygon'].n, I0, j)][c])
        return pick(f, dict(lane=L('lane'), road_line=L('road_line'), road_edge=L('road_edge'), stop_sign=P.term(f['stop_sign']['position'][c]), crosswalk=G('crosswalk'), speed_bump=G('speed_bump'), driveway=G('driveway')), z3.RealVal(0))

    def defs(self):
        p, n = self.pos, self.F.n
        f = self.F[i]
        one = And(*[Not(And(has(f, a), has(f, b))) for x, a in enumerate(KINDS) for b in KINDS[:x]])
        return [p(I0) == 0, forall([i], Implies(inr(i, n), And(p(i + 1) == p(i) + self.C(i), self.C(i) >= 0)), [p(i + 1)]), forall([i], Implies(inr(i, n), one), [p(i)]),
                forall([i], self.C(i) == self.count(i), [self.C(i)]), forall([i], self.T(i) == self.ftype(i), [self.T(i)]), forall([i], self.ID(i) == P.term(f['id']), [self.ID(i)]),
                forall([i, q], And(self.T2(i, q) == self.T(i), self.ID2(i, q) == self.ID(i)), [self.T2(i, q)]), forall([i, q], self.ID2(i, q) == self.ID(i), [self.ID2(i, q)])] + \
               [forall([i, q], self.V[c](i, q) == self.vertex(i, q, c), [self.V[c](i, q)]) for c in AXES]

    def drawn(self, m, upto):
        E = self.E
        l = lists(E, m)
        p = self.pos
        out = [('as many as the vertices: %s' % k, l[k].n == p(upto)) for k in l]
        out.append(('places', forall([i], Implies(And(i >= 0, i < upto), And(p(i) >= 0, p(i + 1) <= p(upto), p(i + 1) >= p(i))), [p(i)])))
        rng = And(inr(i, upto), inr(q, self.C(i)))
        for c in AXES:
            e = at(l[c], p(i) + q)
            if e is not None:
                out.append(('coordinate %s' % c, forall([i, q], Implies(rng, P.term(e) == self.V[c](i, q)), [self.V[c](i, q)])))
        for c, w in (('types', self.T2), ('ids', self.ID2)):
            e = at(l[c], p(i) + q)
            if e is not None:
                out.append((c, forall([i, q], Implies(rng, num(E, e) == w(i, q)), [w(i, q)])))
        return out


def build(S):
    features(S)
    points(S)


def features(S):
    road = None

    def model(E, A):
        d = {k: v for k, v in ((v, ROAD[n]) for n, v in roadline(E).items())}
        return Model(E, A.map_features, d)

    def outer(E, L):
        return model(E, E.A).drawn(L.v('map_points'), L.k)

    def inner(E, L):
        m, pts = L.v('map_points'), L.v('points')
        l = lists(E, m)
        if z3.is_int_value(L.k) and L.k.as_long() == 0:
            E.before = dict(l)
        out = []
        want = dict(x=lambda j: P.term(pts[j]['x']), y=lambda j: P.term(pts[j]['y']), z=lambda j: P.term(pts[j]['z']), types=lambda j: num(E, L.v('feature_type')), ids=lambda j: num(E, L.v('feature_id')))
        for k, s in l.items():
            b = E.before[k]
            out.append(('one more each: %s' % k, s.n == b.n + L.k))
            e, o, w = at(s, q), at(b, q), at(s, b.n + t)
            if o is not None and e is not None:
                out.append(('earlier points: %s' % k, forall([q], Implies(inr(q, b.n), num(E, e) == num(E, o)), [num(E, e)])))
            if k in ('types', 'ids'):
                if e is not None:
                    out.append(('the points: %s' % k, forall([q], Implies(And(q >= b.n, q < s.n), num(E, e) == want[k](I0)), [num(E, e)])))
            elif w is not None and at(pts, t) is not None:
                out.append(('the points: %s' % k, forall([t], Implies(inr(t, L.k), num(E, w) == want[k](t)))))
        return out

    def given(E, A):
        return [('drawn', g) for nm, g in ()]

    def draw(E, A):
        M = model(E, E.A)
        return M.drawn(A.map_points, E.A.map_features.n)
    S.pyfn(MOD, 'plot_map_features', dict(map_features=('list', ('proto', 'MapFeature'))), requires=lambda E, A: model(E, A).defs(), loops={0: inner, 1: outer},
           callees={'plot_map_points': P.PyContract(['map_points'], 'opaque', requires=draw)})


ROAD = dict(TYPE_UNKNOWN=0, TYPE_BROKEN_SINGLE_WHITE=6, TYPE_SOLID_SINGLE_WHITE=7, TYPE_SOLID_DOUBLE_WHITE=8, TYPE_BROKEN_SINGLE_YELLOW=9, TYPE_BROKEN_DOUBLE_YELLOW=10, TYPE_SOLID_SINGLE_YELLOW=11, TYPE_SOLID_DOUBLE_YELLOW=12,
            TYPE_PASSING_DOUBLE_YELLOW=13)


def roadline(E):
    for n, v in E.P.enums.items():
        if 'TYPE_BROKEN_SINGLE_WHITE' in str(v) or any('TYPE_BROKEN_SINGLE_WHITE' == k for k in v):
            return v
    raise P.BindError('no RoadLine type')


def points(S):
    """every run of points of one feature becomes one trace, in order"""
    def mp(E, nm, idx=()):
        ids = E.mk(('list', 'int'), nm + '.ids')
        n = ids.n
        f = {k: P.Seq(n, (lambda k: lambda j: E.uf(nm + '.' + k, z3.RealSort(), (j,)))(k)) for k in AXES}
        f['types'] = P.Seq(n, lambda j: P.Enum('FeatureType', E.uf(nm + '.types', INT, (j,))))
        f['ids'] = ids
        return E.alloc(P.Obj("MapPoints", {k: E.alloc(f[k]) for k in AXES + ["types", "ids"]}))

    def pre(E, A):
        l = lists(E, A.map_points)
        ty = lambda j: num(E, l['types'][j])
        idn = lambda j: num(E, l['ids'][j])
        E.drawn = E.alloc(z3.IntVal(0))
        return [l['ids'].n >= 0, forall([q], Or(*[ty(q) == v for v in STYLE]), [ty(q)]), forall([q, t], Implies(And(idn(q) == idn(t)), ty(q) == ty(t)), [z3.MultiPattern(idn(q), idn(t))])]

    def runs(E, L):
        l = lists(E, L.v('map_points'))
        a, b, d = P.term(L.v('start_index')), P.term(L.v('end_index')), E.val(L.heap[E.drawn.i])
        n = l['ids'].n
        out = [('nothing skipped', And(a == b, a == d, a >= 0, a <= n)), ('the run starts here', Implies(And(a > 0, a < n), num(E, l['ids'][a - 1]) != num(E, l['ids'][a])))]
        fid, pt = L.v('feature_id'), L.v('point_type')
        if fid is not None:
            out.append(('id of the run', Implies(a < n, And(num(E, fid) == num(E, l['ids'][a]), num(E, pt) == num(E, l['types'][a])))))
        return out

    def run(E, L):
        l = lists(E, L.v('map_points'))
        a, b = P.term(L.v('start_index')), P.term(L.v('end_index'))
        return [('in range', And(a <= b, b <= l['ids'].n)), ('the same id', forall([q], Implies(And(q >= a, q < b), num(E, l['ids'][q]) == num(E, L.v('feature_id'))), [num(E, l['ids'][q])])) ]

    def trace(E, A):
        l = lists(E, E.A.map_points)
        d = E.val(E.drawn)
        xs = {c: E.val(A[c]) for c in AXES}
        m, n = xs['x'].n, l['ids'].n
        idn = lambda j: num(E, l['ids'][j])
        out = [('not empty', m > 0), ('all coordinates', And(*[xs[c].n == m for c in AXES])), ('within the map', d + m <= n), ('of one feature', forall([q], Implies(And(q >= d, q < d + m), idn(q) == idn(d)), [idn(q)])),
               ('of the whole feature', And(Or(d == 0, idn(d - 1) != idn(d)), Or(d + m == n, idn(d + m) != idn(d))))]
        out += [('coordinate %s' % c, forall([t], Implies(inr(t, m), P.term(xs[c][t]) == P.term(l[c][d + t])))) for c in AXES]
        ln = dict(E.val(A.line).items) if 'line' in A else dict(E.val(A.marker).items) if 'marker' in A else {}
        ty = num(E, l['types'][d])
        if 'color' in ln:
            out.append(('colour of the type', style(E, ty, 0) == P.term(E.val(ln['color']), E.S)))
        if 'dash' in ln:
            out.append(('dash of the type', style(E, ty, 1) == P.term(E.val(ln['dash']), E.S)))
        return out

    def style(E, ty, k):
        r = E.S.lit('none')
        for v, s in STYLE.items():
            r = If(ty == v, E.S.lit(s[k]), r)
        return r

    def made(E, A, nm):
        d = E.val(E.drawn)
        E.store(E.drawn, P.simp(d + E.val(A['x']).n))
        return P.Opq('trace')
    S.pyfn(MOD, 'plot_map_points', dict(map_points=mp), requires=pre, loops={2: runs, 3: run}, callees={'plotly.graph_objs.Scatter3d': P.PyContract(AXES, requires=trace, make=made)},
           ensures=lambda E, A, r, p: [('every point is drawn', E.val(E.drawn) == lists(E, A.map_points)['ids'].n)], frame=False)

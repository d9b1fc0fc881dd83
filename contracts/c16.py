"""C16: breakdown names in C++ (config_util.cc, ShardName) and Python (config_util_py.py) against one table."""
from spec import *
from wodvc.cxxmodels import STR, strcat, enum_name
from wodvc import py as P
import c07

TYPES = ['TYPE_VEHICLE', 'TYPE_PEDESTRIAN', 'TYPE_SIGN', 'TYPE_CYCLIST']
SUB = {3: ('RANGE', ['[0, 30)', '[30, 50)', '[50, +inf)']), 9: ('SIZE', ['small', 'large']), 7: ('VELOCITY', ['STATIONARY', 'SLOW', 'MEDIUM', 'FAST', 'VERY_FAST']),
       10: ('CAMERA', ['FRONT', 'FRONT-LEFT', 'FRONT-RIGHT', 'SIDE-LEFT', 'SIDE-RIGHT'])}
TABLE = {1: ['ONE_SHARD'], 8: ['ALL_BUT_SIGN', 'SIGN'], 2: ['OBJECT_TYPE_' + t for t in TYPES]}
for v, (n, l) in SUB.items():
    TABLE[v] = ['%s_%s_%s' % (n, t, x) for t in TYPES for x in l]
LEVELS = {'UNKNOWN': 0, 'LEVEL_1': 1, 'LEVEL_2': 2}
CLS = {1: 'OneShard', 2: 'ObjectType', 3: 'Range', 7: 'Velocity', 8: 'AllButSign', 9: 'Size', 10: 'Camera'}
i, j, k, s = z3.Ints('spec!i spec!j spec!k spec!s')
SH = z3.Function('shard name', z3.IntSort(), z3.IntSort(), STR)
NS_ = z3.Function('number of shards', z3.IntSort(), z3.IntSort())
pos = z3.Function('names before shard', z3.IntSort(), z3.IntSort(), z3.IntSort())
CONFIG = 'waymo_open_dataset/metrics/python/config_util_py.py'


def known(g):
    return Or(*[g == v for v in TABLE])


def table(E, g, sh):
    r = E.S.lit('')
    for v, l in TABLE.items():
        x = E.S.lit(l[-1])
        for n in range(len(l) - 2, -1, -1):
            x = If(sh == n, E.S.lit(l[n]), x)
        r = If(g == v, x, r)
    return r


def count(g):
    r = I0
    for v, l in TABLE.items():
        r = If(g == v, z3.IntVal(len(l)), r)
    return r


def positions(gid, nd, ng):
    """position of the first name of each (generator, shard): the metric order"""
    return [pos(I0, I0) == 0, forall([i], Implies(inr(i, ng), pos(i + 1, I0) == pos(i, NS_(gid(i)))), [pos(i + 1, I0)]),
            forall([i, s], Implies(And(inr(i, ng), inr(s, NS_(gid(i)))), pos(i, s + 1) == pos(i, s) + nd(i)), [pos(i, s + 1)]),
            forall([i], Implies(inr(i, ng), And(NS_(gid(i)) > 0, known(gid(i)))), [gid(i)])]


def mono(E, gid, nd, ng):
    return [forall([i, s], Implies(And(i >= 0, s >= 0), pos(i, s) >= 0), [pos(i, s)])]


def level(E, d):
    return enum_name(E, LEVELS, d)


def name(E, g, sh, d):
    return strcat(E, [SH(g, sh), E.S.lit('_'), level(E, d)])


def facts(E, names, at, ln, gid, lev, nd, i1, s1, k1):
    """all names of the generators before i1, of its shards before s1, and of the levels before k1 of shard s1"""
    one = lambda a, b, c: at(names, pos(a, b) + c) == name(E, gid(a), b, lev(a, c))
    done = lambda a, b, c: Or(a < i1, And(a == i1, Or(b < s1, And(b == s1, c < k1))))
    rng = lambda a, b, c: And(a >= 0, inr(b, NS_(gid(a))), inr(c, nd(a)), done(a, b, c))
    return [('length', ln(names) == pos(i1, s1) + k1),
            ('shards', forall([i, s], Implies(And(i >= 0, inr(s, NS_(gid(i))), Or(i < i1, And(i == i1, s < s1))), And(pos(i, s) >= 0, pos(i, s) + nd(i) <= ln(names))), [pos(i, s)])),
            ('names', forall([i, s, k], Implies(rng(i, s, k), one(i, s, k)), [z3.MultiPattern(pos(i, s), lev(i, k))]))]


def build(S):
    c07.create(S)
    cxx(S)
    python(S)
    distinct(S)


def cxx(S):
    IN = NS + 'internal::'
    o = dict(strings=True)
    for v, n in CLS.items():
        S.fn(NS + 'BreakdownGenerator%s::ShardName' % n, opts=o, requires=lambda A, v=v: [inr(A[0], len(TABLE[v]))], ensures=lambda E, A, r, p, v=v: [
            ('the name of the shard', r == table(E, z3.IntVal(v), A[0]))])
        S.fn(NS + 'BreakdownGenerator%s::NumShards' % n, ensures=lambda E, A, r, p, v=v: [('one name per shard', r == len(TABLE[v]))])

    def dl(E, L):
        v = L.v('difficulty_levels')
        c = E.at(E.get(E.A[0], 'difficulties'), E.A[1])
        l = E.get(c, 'levels')
        return [('copied', And(E.len(v) == L.k, forall([k], Implies(inr(k, L.k), E.at(v, k) == E.at(l, k)), [E.at(v, k)])))]

    def levels(E, A, r):
        l = E.get(E.at(E.get(A[0], 'difficulties'), A[1]), 'levels')
        n = E.len(l)
        return [E.len(r) == If(n > 0, n, z3.IntVal(1)), Implies(n == 0, E.at(r, I0) == 2), forall([k], Implies(inr(k, n), E.at(r, k) == E.at(l, k)), [E.at(r, k)]), n >= 0]
    S.fn(IN + 'GetDifficultyLevels', loops={0: dl}, requires=lambda E, A: [inr(A[1], E.len(E.get(A[0], 'difficulties'))), E.len(E.get(E.at(E.get(A[0], 'difficulties'), A[1]), 'levels')) >= 0],
         ensures=lambda E, A, r, p: list(zip(['as many as configured, or one', 'the default is LEVEL_2', 'in the configured order', 'n'], levels(E, A, r))))

    BG = NS + 'BreakdownGenerator::'

    def cal(E):
        g = lambda A: E.get(A['this'], '__id')
        return {BG + 'Create': Contract(BG + 'Create', requires=lambda A: [('a known generator', known(A[0]))], ensures=lambda A, r, p: [E.get(r, 'has'), E.get(E.get(r, 'val'), '__id') == A[0]]),
                BG + 'NumShards': Contract(BG + 'NumShards', ensures=lambda A, r, p: [r == NS_(g(A))]),
                BG + 'ShardName': Contract(BG + 'ShardName', requires=lambda A: [('shard in range', inr(A[0], NS_(g(A))))], ensures=lambda A, r, p: [r == SH(g(A), A[0])]),
                IN + 'GetDifficultyLevels': Contract(IN + 'GetDifficultyLevels', requires=lambda A: [('index', inr(A[1], E.len(E.get(A[0], 'difficulties'))))], ensures=lambda A, r, p: levels(E, A, r))}

    def view(E, c):
        gs, ds = E.get(c, 'breakdown_generator_ids'), E.get(c, 'difficulties')
        gid = lambda a: E.at(gs, a)
        ll = lambda a: E.get(E.at(ds, a), 'levels')
        nd = lambda a: If(E.len(ll(a)) > 0, E.len(ll(a)), z3.IntVal(1))
        LV = E.func('spec level', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return gid, nd, LV, E.len(gs), ll, ds

    def ax(E, c):
        gid, nd, LV, ng, ll, ds = view(E, c)
        return positions(gid, nd, ng) + [ng >= 0, E.len(ds) == ng, forall([i], E.len(ll(i)) >= 0, [E.len(ll(i))]),
                                         forall([i, k], LV(i, k) == If(E.len(ll(i)) > 0, E.at(ll(i), k), z3.IntVal(2)), [LV(i, k)]),
                                         forall([i, k], Implies(And(inr(i, ng), inr(k, nd(i))), And(LV(i, k) >= 0, LV(i, k) <= 2)), [LV(i, k)])]

    def inv(d):
        def f(E, L):
            gid, nd, LV, ng, ll, ds = view(E, E.A[0])
            v = L.v('names')
            a = L.v('i')
            b = L.v('shard') if d > 0 else I0
            c = L.k if d > 1 else I0
            r = facts(E, v, E.at, E.len, gid, LV, nd, a, b, c)
            if d > 0:
                r.append(('generator', And(inr(a, ng), E.get(E.get(L.v('breakdown_generator'), 'val'), '__id') == gid(a), L.v('num_shards') == NS_(gid(a)))))
                dl = L.v('difficulty_levels')
                r.append(('levels', And(E.len(dl) == nd(a), forall([k], Implies(inr(k, nd(a)), E.at(dl, k) == LV(a, k)), [E.at(dl, k)]))))
            if d > 1:
                r.append(('shard', inr(b, NS_(gid(a)))))
            return r
        return f

    def ens(E, A, r, p):
        gid, nd, LV, ng, ll, ds = view(E, A[0])
        return facts(E, r, E.at, E.len, gid, LV, nd, ng, I0, I0)
    S.fn(NS + 'GetBreakdownNamesFromConfig', opts=o, callees=cal, requires=lambda E, A: ax(E, A[0]), loops={0: inv(0), 1: inv(1), 2: inv(2)}, ensures=ens)

    def motion(E, A, r, p):
        st = E.get(A[0], 'step_configurations')
        n = E.len(st)
        return [('one name per type and step', E.len(r) == 3 * n)] + [
            ('names of ' + t, forall([k], Implies(inr(k, n), E.at(r, m * n + k) == strcat(E, [E.S.lit(t + '_'), E.get(E.at(st, k), 'measurement_step')])), [E.get(E.at(st, k), 'measurement_step')])) for m, t in enumerate(MT)]

    def ml(E, L):
        v = L.v('names')
        st = E.get(E.A[0], 'step_configurations')
        n = E.len(st)
        ob = L.v('object_type')
        m = If(ob == 1, I0, If(ob == 2, z3.IntVal(1), z3.IntVal(2)))
        old = L.entry
        return [('length', And(n >= 0, Or(ob == 1, ob == 2, ob == 3), E.len(v) == m * n + L.k))] + [
            ('names of %s' % t, forall([k], Implies(And(inr(k, n), Or(ob > q + 1, And(ob == q + 1, k < L.k))), E.at(v, q * n + k) == strcat(E, [E.S.lit(t + '_'), E.get(E.at(st, k), 'measurement_step')])), [E.get(E.at(st, k), 'measurement_step')])) for q, t in enumerate(MT)]

    S.fn(NS + 'GetBreakdownNamesFromMotionConfig', opts=o, loops={0: ml}, requires=lambda E, A: [E.len(E.get(A[0], 'step_configurations')) >= 0], ensures=motion)


MT = ['TYPE_VEHICLE', 'TYPE_PEDESTRIAN', 'TYPE_CYCLIST']


def python(S):
    for v in TABLE:
        S.pyfn(CONFIG, '_get_num_breakdown_shards', dict(breakdown_generator_id=('const', v)), label='_get_num_breakdown_shards[%d]' % v,
               ensures=lambda E, A, r, p, v=v: [('one name per shard', term(E, r) == len(TABLE[v]))])
        S.pyfn(CONFIG, '_get_breakdown_shard_name', dict(breakdown_generator_id=('const', v), shard='int'), label='_get_breakdown_shard_name[%d]' % v,
               requires=lambda E, A, v=v: [inr(A.shard, len(TABLE[v]))], ensures=lambda E, A, r, p, v=v: [('the name of the shard', term(E, r) == table(E, z3.IntVal(v), A.shard))])
    cal = {'_get_num_breakdown_shards': P.PyContract(['breakdown_generator_id'], 'int', requires=lambda E, A: [('a known generator', known(A.breakdown_generator_id))],
                                                     ensures=lambda E, A, r: [r == NS_(A.breakdown_generator_id)]),
           '_get_breakdown_shard_name': P.PyContract(['breakdown_generator_id', 'shard'], 'str', requires=lambda E, A: [('shard in range', And(known(A.breakdown_generator_id), inr(A.shard, NS_(A.breakdown_generator_id))))],
                                                     ensures=lambda E, A, r: [r == SH(A.breakdown_generator_id, A.shard)])}

    def view(E, c):
        gs, ds = c['breakdown_generator_ids'], c['difficulties']
        gid = lambda a: gs[a]
        ll = lambda a: ds[a]['levels']
        nd = lambda a: If(ll(a).n > 0, ll(a).n, z3.IntVal(1))
        LV = E.func('spec level', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return gid, nd, LV, gs.n, ll, ds
    def at(v, x):
        try:
            return v[x]
        except P.EmptyElem:                 # before the first element: nothing is in range
            return z3.Const('no name', STR)
    ln = lambda v: v.n

    def ax(E, A):
        gid, nd, LV, ng, ll, ds = view(E, A.config)
        return positions(gid, nd, ng) + [ds.n == ng, forall([i, k], LV(i, k) == If(ll(i).n > 0, ll(i)[k], z3.IntVal(2)), [LV(i, k)]), forall([i, k], Implies(And(inr(i, ng), ll(i).n > 0, inr(k, ll(i).n)), LV(i, k) == ll(i)[k]), [ll(i)[k]]),
                                         forall([i, k], Implies(And(inr(i, ng), inr(k, nd(i))), And(LV(i, k) >= 0, LV(i, k) <= 2)), [LV(i, k)])]

    def inv(d):
        def f(E, L):
            gid, nd, LV, ng, ll, ds = view(E, E.A.config)
            a = L.k if d == 0 else L.v('index')
            b = I0 if d == 0 else L.k if d == 1 else L.v('shard_id')
            c = L.k if d > 1 else I0
            r = facts(E, L.v('names'), at, ln, gid, LV, nd, a, b, c)
            if d > 0:
                r.append(('generator', And(inr(a, ng), L.v('breakdown_generator_id') == gid(a))))
            if d > 1:
                r.append(('shard', And(inr(b, NS_(gid(a))), L.v('shard_name') == SH(gid(a), b))))
            return r
        return f
    S.pyfn(CONFIG, 'get_breakdown_names_from_config', dict(config=('proto', 'waymo::open_dataset::Config')), callees=cal, requires=ax, loops={0: inv(0), 1: inv(1), 2: inv(2)},
           ensures=lambda E, A, r, p: (lambda V: facts(E, r, at, ln, V[0], V[2], V[1], V[3], I0, I0))(view(E, A.config)))

    def steps(E):
        return E.A.config['step_configurations']

    def ens(E, r, m, kk):
        st = steps(E)
        n = st.n
        return [('length', r.n == m * n + kk)] + [
            ('names of ' + t, forall([k], Implies(And(inr(k, n), Or(z3.IntVal(q) < m, And(q == m, k < kk))), at(r, q * n + k) == strcat(E, [E.S.lit(t + '_'), st[k]['measurement_step']])), [st[k]['measurement_step']])) for q, t in enumerate(MT)]

    def ml(E, L):
        ob = term(E, L.v('object_type'))
        m = If(ob == 1, I0, If(ob == 2, z3.IntVal(1), z3.IntVal(2)))
        return ens(E, L.v('names'), simp(m), L.k)
    S.pyfn(CONFIG, 'get_breakdown_names_from_motion_config', dict(config=('proto', 'MotionMetricsConfig')), loops={1: ml}, ensures=lambda E, A, r, p: ens(E, r, z3.IntVal(3), I0))


from wodvc.cxx import simp                                      # noqa: E402


def term(E, v):
    return P.term(v, E.S)


def distinct(S):
    """names of different (generator, shard, level) differ: the finite table, and for motion by prefix and number"""
    allnames = ['%s_%s' % (n, l) for v in TABLE for n in TABLE[v] for l in LEVELS]
    S.lemma('the %d possible detection and tracking names are pairwise distinct' % len(allnames), [], z3.Distinct(*[z3.StringVal(n) for n in allnames]))
    a, b = z3.Strings('spec!a spec!b')
    for x in MT:
        for y in MT:
            if x != y:
                S.lemma('motion names of %s and %s differ' % (x, y), [z3.Concat(z3.StringVal(x + '_'), a) == z3.Concat(z3.StringVal(y + '_'), b)], z3.BoolVal(False))
    S.lemma('motion names of one type differ when the steps do', [z3.Concat(z3.StringVal('TYPE_VEHICLE_'), a) == z3.Concat(z3.StringVal('TYPE_VEHICLE_'), b)], a == b)

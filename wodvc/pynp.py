"""Models of the Python builtins, of numpy and of protobuf messages for wodvc.py."""
import ast
import re
import z3
from .cxxsorts import Unsupported, STR
from .cxx import And, Or, Not, Implies, If, TRUE, FALSE, simp, is_true
from .cxxmodels import forall, enum_name
from .py import (Seq, Arr, Pro, Enum, Cell, Obj, Dict, SetV, Ref, Fn, Bi, Method, Range, Wrap, Opq, Raise, Stop, empty, term, cint,
                 I0, I1, INT, REAL, BOOL)


# ------------------------------------------------------------------ arrays
def asarr(E, v):
    v = E.val(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, (Seq, tuple)):
        return fromlist(E, v)
    if isinstance(v, SetV):
        raise Unsupported('array of a set')
    t = term(v, E.S)
    return Arr([], lambda: t, dt_of(t))


def dt_of(t):
    return {INT: 'int', REAL: 'real', BOOL: 'bool', STR: 'str'}[t.sort()]


def fromlist(E, v):
    if isinstance(v, tuple):
        v = E.aslist(v)
    x = E.elem(v)
    if x is None:
        return Arr([I0], lambda i: I0, 'int')
    if isinstance(x, (Seq, tuple)):
        sub = lambda i: fromlist(E, E.val(v[i]))
        x = fromlist(E, x)
    elif isinstance(x, Arr):
        sub = lambda i: E.val(v[i])
    else:
        c = cint(v.n)
        if c is not None and c <= 16:
            ts = [term(v[j], E.S) for j in range(c)]
            dt = 'real' if any(t.sort() == REAL for t in ts) else dt_of(ts[0])
            return Arr([v.n], lambda i: E.num(v[i], dt), dt)
        dt = dt_of(term(x, E.S))
        return Arr([v.n], lambda i: term(v[i], E.S), dt)
    first = sub(I0)
    E.oblige('np.array of a non-empty list', v.n > 0, 'shape')
    i = E.fresh('row', INT)
    si = sub(i)
    for a, b in zip(si.shape, first.shape):
        if not a.eq(b):
            E.oblige('rows of equal shape', Implies(And(i >= 0, i < v.n), a == b), 'shape')
            E.path.pop() if E.path and not is_true(simp(a == b)) else None
    return Arr([v.n] + list(first.shape), lambda i, *j: sub(i)(*j), first.dt)


def bcast(E, vs, f, dt):
    vs = [asarr(E, v) for v in vs]
    if dt is None:
        dt = 'real' if any(v.dt == 'real' for v in vs) else 'int' if any(v.dt == 'int' for v in vs) else 'bool'
    rank = max(v.rank for v in vs)
    shape = []
    for d in range(rank):
        cand = [v.shape[d - rank + v.rank] for v in vs if d - rank + v.rank >= 0]
        pick = next((c for c in cand if cint(c) != 1), cand[0])
        for c in cand:
            if cint(c) != 1 and not simp(c).eq(simp(pick)):
                E.oblige('shapes agree', c == pick, 'shape')
        shape.append(pick)

    def at(*i):
        out = []
        for v in vs:
            j = i[rank - v.rank:]
            out.append(v(*[I0 if cint(s) == 1 else x for x, s in zip(j, v.shape)]))
        return f(*out)
    return Arr(shape, at, dt)


def arrop(E, op, a, b):
    line = None
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: E.mul}[type(op)]

        def g(x, y):
            x, y = E.unify(x, y)
            if x.sort() == BOOL:
                x, y = If(x, I1, I0), If(y, I1, I0)
            return f(x, y)
        r = bcast(E, [a, b], g, None)
        r.dt = 'int' if r.dt == 'bool' else r.dt
        return r
    if isinstance(op, ast.Div):
        r = bcast(E, [a, b], lambda x, y: E.div(E.num(x, 'real'), E.num(y, 'real')), 'real')
        nonzero(E, a, b)
        return r
    if isinstance(op, ast.Pow):
        return bcast(E, [a, b], lambda x, y: E.power(E.num(x, 'real'), E.num(y, 'real')), 'real')
    if isinstance(op, (ast.BitAnd, ast.BitOr)):
        return bcast(E, [a, b], (lambda x, y: And(x, y)) if isinstance(op, ast.BitAnd) else (lambda x, y: Or(x, y)), 'bool')
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        nonzero(E, a, b)
        return bcast(E, [a, b], (lambda x, y: x / y) if isinstance(op, ast.FloorDiv) else (lambda x, y: x % y), 'int')
    raise Unsupported('array operator %s' % type(op).__name__)


def nonzero(E, a, b):
    if E.opts.get('nan_ok'):
        return
    d = asarr(E, b)
    ix = [E.fresh('dv', INT) for _ in d.shape]
    t = d(*ix)
    p = list(E.path)
    for i, s in zip(ix, d.shape):
        E.assume(And(i >= 0, i < s))
    E.oblige('no division by zero', E.num(t, 'real') != 0, 'div')
    E.path = p


def parse(E, w, sl, env):
    """[(kind, value)] one entry per output/input axis"""
    es = sl.elts if isinstance(sl, ast.Tuple) else [sl]
    items = []
    for e in es:
        if isinstance(e, ast.Slice):
            if e.step is not None:
                raise Unsupported('array slice step')
            items.append(('slice', E.ev(e.lower, env) if e.lower else None, E.ev(e.upper, env) if e.upper else None))
            continue
        x = E.val(E.ev(e, env))
        if x is Ellipsis:
            items.append(('...',))
        elif x is None:
            items.append(('new',))
        elif isinstance(x, slice):
            items.append(('slice', x.start, x.stop))
        elif isinstance(x, (Arr, Seq, tuple)):
            if isinstance(x, tuple) and not isinstance(e, (ast.Tuple, ast.List)) and len(es) == 1:
                items += [('int', y) if isinstance(y, (int, z3.ExprRef)) else ('...',) if y is Ellipsis else ('arr', asarr(E, y)) for y in x]
                continue
            x = asarr(E, x)
            items.append(('mask', x) if x.dt == 'bool' else ('arr', x) if x.rank else ('int', x()))
        else:
            items.append(('int', x))
    used = sum(1 for k in items if k[0] in ('slice', 'int', 'arr')) + sum(k[1].rank for k in items if k[0] == 'mask')
    full = [('slice', None, None)] * (w.rank - used)
    if ('...',) in items:
        j = items.index(('...',))
        items = items[:j] + full + items[j + 1:]
    else:
        items = items + full
    if used > w.rank:
        raise Raise('IndexError')
    return items


def plan(E, w, items, line):
    """output shape and, per input axis, the index as a function of the output indices"""
    shape, ix = [], []
    d = 0
    narr = sum(1 for k in items if k[0] == 'arr')
    if narr > 1 or any(k[0] == 'arr' and k[1].rank != 1 for k in items):
        if not (len(items) == 1 or narr == 1):
            raise Unsupported('several index arrays line %s' % line)
    for k in items:
        if k[0] == 'new':
            shape.append(I1)
            continue
        n = w.shape[d]
        if k[0] == 'slice':
            a, m = E.slice_bounds(n, k[1], k[2])
            o = len(shape)
            shape.append(m)
            ix.append(lambda i, o=o, a=a: simp(a + i[o]))
        elif k[0] == 'int':
            j = E.index(k[1], n, line)
            ix.append(lambda i, j=j: j)
        elif k[0] == 'arr':
            A = k[1]
            o = len(shape)
            shape += A.shape
            q = [E.fresh('ax', INT) for _ in A.shape]
            p = list(E.path)
            for a, s in zip(q, A.shape):
                E.assume(And(a >= 0, a < s))
            E.oblige('indices in range', And(A(*q) >= 0, A(*q) < n), 'bounds', line)
            E.path = p
            ix.append(lambda i, o=o, A=A: A(*i[o:o + A.rank]))
        else:
            raise Unsupported('index line %s' % line)
        d += 1
    return shape, ix


def arrget(E, v, w, sl, env, line):
    items = parse(E, w, sl, env)
    if len(items) == 1 and items[0][0] == 'mask' and items[0][1].rank == 1 == w.rank:
        m = items[0][1]
        if not simp(m.shape[0]).eq(simp(w.shape[0])):
            E.oblige('mask of the right length', m.shape[0] == w.shape[0], 'shape', line)
        cnt, pos = E.select(w.shape[0], lambda i: m(i))
        return Arr([cnt], lambda j: w(pos(j)), w.dt)
    if len(items) >= 1 and items[0][0] == 'mask' and all(k == ('slice', None, None) for k in items[1:]):
        m = items[0][1]
        rank, pos, flat, un = masked(E, w, m, line)
        r = m.rank
        return Arr([rank(None)] + w.shape[r:], lambda j, *o: w(*[u(pos(j)) for u in un], *o), w.dt)
    shape, ix = plan(E, w, items, line)
    if not shape:
        return w(*[f(()) for f in ix])
    basic = all(k[0] != 'arr' for k in items)
    return Arr(shape, lambda *i: w(*[f(i) for f in ix]), w.dt, E.viewdeps(v, w) if basic else ())


def masked(E, w, m, line):
    """the enumeration of the entries a mask of the leading axes selects"""
    for a, b in zip(m.shape, w.shape):
        if not simp(a).eq(simp(b)):
            E.oblige('mask of the right shape', a == b, 'shape', line)
    flat, un, N = bijection(E, m.shape)
    k = z3.Int('mask!k')
    t = simp(m(*[u(k) for u in un]))
    for n, t0, r in E.constcache.setdefault(('masks',), []):
        if n.eq(N) and t0.eq(t):
            return r                                           # the same mask again
    cnt, pos = E.select(N, lambda q: m(*[u(q) for u in un]))
    rank = E.last_select[0]
    r = (lambda q: cnt if q is None else rank(q)), pos, flat, un
    E.constcache[('masks',)].append((N, t, r))
    return r


def arrset(E, v, w, sl, val, env, line):
    items = parse(E, w, sl, env)
    x = asarr(E, val)
    if len(items) == 1 and items[0][0] == 'mask' and items[0][1].rank == 1 == w.rank:
        m = items[0][1]
        cnt, pos = E.select(w.shape[0], lambda i: m(i))
        rank, _ = E.last_select
        if x.rank == 0:
            new = lambda i: If(m(i), E.num(x(), w.dt), w(i))
        else:
            E.oblige('as many values as selected entries', x.shape[0] == cnt, 'shape', line)
            new = lambda i: If(m(i), E.num(x(rank(i)), w.dt), w(i))
        E.store(v, Arr(w.shape, new, w.dt))
        return
    if len(items) >= 1 and items[0][0] == 'mask' and all(k == ('slice', None, None) for k in items[1:]) and items[0][1].rank == w.rank:
        m = items[0][1]
        rank, pos, flat, un = masked(E, w, m, line)
        if x.rank == 0:
            new = lambda *i: If(m(*i), E.num(x(), w.dt), w(*i))
        else:
            if not simp(x.shape[0]).eq(simp(rank(None))):
                E.oblige('as many values as selected entries', x.shape[0] == rank(None), 'shape', line)
            new = lambda *i: If(m(*i), E.num(x(rank(flat(*i))), w.dt), w(*i))
        E.store(v, Arr(w.shape, new, w.dt))
        return
    if any(k[0] in ('arr', 'mask', 'new') for k in items):
        raise Unsupported('array assignment line %s' % line)
    regs = []
    outd = []
    for k, n in zip(items, w.shape):
        if k[0] == 'slice':
            a, m = E.slice_bounds(n, k[1], k[2])
            regs.append(('s', a, m))
            outd.append(m)
        else:
            regs.append(('i', E.index(k[1], n, line), None))
    if x.rank > len(outd):
        raise Raise('ValueError')
    for s, m in zip(x.shape, outd[len(outd) - x.rank:]):
        if cint(s) != 1 and not simp(s).eq(simp(m)):
            E.oblige('assigned shape', s == m, 'shape', line)

    def cast(t):
        if w.dt == 'int' and term(t).sort() == REAL:
            return trunc(t)
        return E.num(t, w.dt)

    def new(*i):
        c, o = [], []
        for t, r in zip(i, regs):
            if r[0] == 'i':
                c.append(t == r[1])
            else:
                full = cint(r[1]) == 0
                if not (full and any(r[2].eq(s) or simp(r[2]).eq(simp(s)) for s in w.shape)):
                    c.append(And(t >= r[1], t < r[1] + r[2]))
                o.append(simp(t - r[1]))
        o = o[len(o) - x.rank:] if x.rank else []
        xv = x(*[I0 if cint(s) == 1 else y for y, s in zip(o, x.shape)])
        cond = simp(And(*c)) if c else TRUE
        return If(cond, cast(xv), w(*i)) if not z3.is_false(cond) else w(*i)
    E.store(v, Arr(w.shape, new, w.dt))


def trunc(x):
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def uftrunc(E, x):
    """truncation by its characteristic facts (exact on integers)"""
    f = z3.Function('trunc', REAL, INT)
    if ('trunc',) not in E.constcache:
        E.constcache[('trunc',)] = 1
        q, n = z3.Real('trunc!x'), z3.Int('trunc!n')
        E.fact(forall([n], f(z3.ToReal(n)) == n, [f(z3.ToReal(n))]))
        if not E.opts.get('ufdiv'):
            t = z3.ToReal(f(q))
            E.fact(forall([q], And(Implies(q >= 0, And(t <= q, q < t + 1)), Implies(q <= 0, And(t >= q, q > t - 1))), [f(q)]))
    return f(x)


def rnd(E, x):
    f = z3.Function('round_half_even', REAL, INT)
    if ('round',) not in E.constcache:
        E.constcache[('round',)] = 1
        q = z3.Real('rnd!x')
        n = z3.Int('rnd!n')
        E.fact(forall([q], And(z3.ToReal(f(q)) - q <= z3.RealVal('1/2'), q - z3.ToReal(f(q)) <= z3.RealVal('1/2')), [f(q)]))
        E.assumed.add('np.round: a nearest integer')
    return f(E.num(x, 'real'))


def sqrt(E, x):
    f = z3.Function('sqrt', REAL, REAL)
    if ('sqrt',) not in E.constcache:
        E.constcache[('sqrt',)] = 1
        q = z3.Real('sqrt!x')
        sq = TRUE if E.opts.get('ufmul') else f(q) * f(q) == q
        E.fact(forall([q], And(Implies(q >= 0, And(f(q) >= 0, sq)), Implies(q > 0, f(q) > 0), Implies(q == 0, f(q) == 0)), [f(q)]))
    return f(E.num(x, 'real'))


def axis_of(a, rank):
    a = cint(a)
    return a + rank if a < 0 else a


def fold(E, a, axis, keep, what):
    """sum / max / all / any / mean over one axis"""
    n = a.shape[axis]
    rest = a.shape[:axis] + a.shape[axis + 1:]
    ins = lambda i, k: i[:axis] + (k,) + i[axis:]
    c = cint(n)
    dt = {'all': 'bool', 'any': 'bool', 'mean': 'real'}.get(what, 'int' if a.dt == 'bool' else a.dt)
    if c is not None and c <= 8:
        def at(*i):
            xs = [a(*ins(i, z3.IntVal(k))) for k in range(c)]
            xs = [E.num(x, dt) for x in xs] if dt != 'bool' else xs
            if what == 'all':
                return And(*xs)
            if what == 'any':
                return Or(*xs)
            if what in ('max', 'min'):
                r = xs[0]
                for x in xs[1:]:
                    r = If(x >= r, x, r) if what == 'max' else If(x <= r, x, r)
                return r
            r = xs[0]
            for x in xs[1:]:
                r = r + x
            return r / c if what == 'mean' else r
    else:
        E.n += 1
        src = named(E, a)
        E.folds = getattr(E, 'folds', [])
        vs = tuple(z3.Int('fold!%d' % j) for j in range(len(rest)))
        k = z3.Int('fold!k')
        rng = And(*[And(v >= 0, v < s) for v, s in zip(vs, rest)]) if vs else TRUE
        sort = {'int': INT, 'real': REAL, 'bool': BOOL}[dt]
        ap = lambda f, *x: f(*x)
        if what in ('max', 'min', 'any', 'all'):
            m = z3.Function('%s!%d' % (what, E.n), *([INT] * len(rest)), sort) if rest else (lambda q: (lambda: q))(z3.Const('%s!%d' % (what, E.n), sort))
            am = z3.Function('arg%s!%d' % (what, E.n), *([INT] * len(rest)), INT) if rest else (lambda q: (lambda: q))(z3.Const('arg%s!%d' % (what, E.n), INT))
            e, g = src(*ins(vs, k)), m(*vs)
            w = am(*vs)
            if what in ('max', 'min'):
                E.oblige('%s of a non-empty axis' % what, n > 0, 'shape')
                q = lambda p: z3.ForAll(list(vs), p, patterns=[g]) if vs else p
                E.fact(q(Implies(rng, And(w >= 0, w < n, g == src(*ins(vs, w))))))
                b = Implies(And(rng, k >= 0, k < n), g >= e if what == 'max' else g <= e)
                E.fact(forall(list(vs) + [k], b, [e]))
                E.folds.append((what, m, am, src))
            else:
                hit = (lambda t: t) if what == 'any' else Not
                q = lambda p: z3.ForAll(list(vs), p, patterns=[g]) if vs else p
                E.fact(q(Implies(And(rng, hit(g)), And(w >= 0, w < n, hit(src(*ins(vs, w)))))))
                E.fact(forall(list(vs) + [k], Implies(And(rng, k >= 0, k < n, hit(e)), hit(g)), [e]))
                E.folds.append((what, m, am, src))
            at = lambda *i: m(*i)
        else:
            s = z3.Function('sum!%d' % E.n, *([INT] * (len(rest) + 1)), sort)
            E.fact(forall(list(vs), s(*vs, I0) == 0, [s(*vs, I0)]) if vs else s(I0) == 0)
            E.fact(forall(list(vs) + [k], Implies(And(rng, k >= 0, k < n), s(*vs, k + 1) == s(*vs, k) + E.num(src(*ins(vs, k)), dt)), [s(*vs, k + 1)]))
            E.last_sum = s
            at = (lambda *i: s(*i, n)) if what == 'sum' else (lambda *i: s(*i, n) / z3.ToReal(n))
    if keep:
        shape = a.shape[:axis] + [I1] + a.shape[axis + 1:]
        return Arr(shape, lambda *i: at(*(i[:axis] + i[axis + 1:])), dt)
    if not rest:
        return at()
    return Arr(rest, at, dt)


def named(E, a):
    """the elements of an array as an uninterpreted function with a defining axiom"""
    i = [z3.Int('nm!%d' % j) for j in range(a.rank)]
    t = a(*i)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == a.rank and all(x.eq(y) for x, y in zip(t.children(), i)):
        return t.decl()
    E.n += 1
    f = z3.Function('array!%d' % E.n, *([INT] * a.rank), a.sort())
    E.fact(forall(i, f(*i) == t, [f(*i)]))
    E.named_arrays = getattr(E, 'named_arrays', []) + [f]
    return f


def bijection(E, shape):
    """row-major flattening of a shape, as a bijection (its formula is not needed)"""
    key = ('flat',) + tuple(simp(s).sexpr() for s in shape)
    if key in E.constcache:
        return E.constcache[key]
    E.n += 1
    tag = '%d' % (sum(1 for k in E.constcache if isinstance(k, tuple) and k[0] == 'flat'))
    r = len(shape)
    flat = z3.Function('flat!' + tag, *([INT] * r), INT)
    un = [z3.Function('unflat%d!%s' % (d, tag), INT, INT) for d in range(r)]
    N = z3.Const('size!' + tag, INT)
    i = [z3.Int('fl!%d' % d) for d in range(r)]
    k = z3.Int('fl!k')
    rng = And(*[And(x >= 0, x < s) for x, s in zip(i, shape)])
    E.fact(forall(i, Implies(rng, And(flat(*i) >= 0, flat(*i) < N, *[un[d](flat(*i)) == i[d] for d in range(r)])), [flat(*i)]))
    E.fact(forall([k], Implies(And(k >= 0, k < N), And(flat(*[u(k) for u in un]) == k, *[And(u(k) >= 0, u(k) < s) for u, s in zip(un, shape)])), [un[0](k)]))
    E.fact(N >= 0)
    E.fact(Implies(And(*[s > 0 for s in shape]), N > 0))
    E.assumed.add('reshape: flattening is a bijection fixed by the shape')
    E.constcache[key] = (flat, un, N)
    return E.constcache[key]


def reshape(E, v, a, shape):
    shape = [shape] if not isinstance(shape, (tuple, list)) else list(shape)
    if len(shape) == 1 and cint(shape[0]) == -1:
        if a.rank == 1:
            return a
        flat, un, N = bijection(E, a.shape)
        return Arr([N], lambda k: a(*[u(k) for u in un]), a.dt)
    if a.rank == 1 and all(cint(s) != -1 for s in shape):
        shape = [term(s) for s in shape]
        flat, un, N = bijection(E, shape)
        E.oblige('reshape keeps the size', a.shape[0] == N, 'shape')
        return Arr(shape, lambda *i: a(flat(*i)), a.dt)
    raise Unsupported('reshape')


# ------------------------------------------------------------------ functions
def function(E, name, args, kw, line):
    n = name.split('.')
    if n[0] == 'numpy':
        return numpy(E, '.'.join(n[1:]), args, kw, line)
    if any(p.endswith('_pb2') for p in n):
        return proto_function(E, n, args, kw, line)
    if name in ('zlib.compress', 'zlib.decompress'):
        return Opq(name, tuple(E.val(a) for a in args))
    if n[0] in ('plotly', 'pandas', 'matplotlib'):
        return Opq(name, tuple(args) + tuple(kw.values()))
    if name == 'os.path.join':
        return Opq('path', tuple(args))
    if name == 'os.path.isfile' or name == 'os.path.exists':
        return z3.Const('exists ' + pathname(E, args[0]), BOOL)
    if name == 'open':
        return Opq('file', (args[0],))
    if name == 'len':
        v = E.val(args[0])
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Seq):
            c = cint(v.n)
            return c if c is not None else v.n
        if isinstance(v, Arr):
            if v.rank == 0:
                raise Raise('TypeError')
            return v.shape[0]
        if isinstance(v, Dict):
            return len(v.items)
        if isinstance(v, SetV):
            return card(E, v)
        if isinstance(v, z3.ExprRef) and v.sort() == STR:
            f = z3.Function('strlen', STR, INT)(v)
            E.assume(f >= 0)
            return f
        raise Unsupported('len of %s line %s' % (type(v).__name__, line))
    if name == 'range':
        a = [x for x in args]
        if len(a) == 1:
            return Range(0, a[0])
        return Range(a[0], a[1], cint(a[2]) if len(a) > 2 else 1)
    if name in ('enumerate', 'zip', 'reversed'):
        return Wrap(name, [E.val(a) for a in args])
    if name == 'list':
        return E.aslist(args[0]) if args else empty()
    if name == 'tuple':
        v = E.aslist(args[0]) if args else empty()
        c = cint(v.n)
        if c is None:
            return v
        return tuple(v[j] for j in range(c))
    if name == 'dict':
        return Dict([(k, E.hold(v)) for k, v in kw.items()])
    if name == 'set':
        if not args:
            return Opq('empty set')
        v = E.val(args[0])
        if isinstance(v, SetV):
            return v
        s = E.aslist(v)
        x = E.val(s[E.fresh('elem', INT)])
        r = SetV(E.members(s), term(x, E.S).sort())
        r.src = s
        return r
    if name == 'sorted':
        return sorted_(E, args[0])
    if name in ('int', 'float', 'str', 'bool'):
        v = E.val(args[0])
        if name == 'str':
            if isinstance(v, Enum):
                return E.fresh('text', STR)
            return E.text(v)
        if name == 'bool':
            return E.truth(v)
        if isinstance(v, Arr) and v.rank == 0:
            v = v()
        if isinstance(v, (int, float)):
            return int(v) if name == 'int' else float(v)
        if not isinstance(v, z3.ExprRef) or v.sort() == STR:
            raise Unsupported('%s of %s' % (name, type(v).__name__))
        if name == 'int':
            return trunc(v) if v.sort() == REAL else E.num(v, 'int')
        return E.num(v, 'real')
    if name == 'map':
        s = E.aslist(args[1])
        f = args[0]
        return Seq(s.n, lambda i: E.quiet(lambda: E.snap(E.call(f, [s[i]], {}, line))))
    if name == 'abs':
        v = E.val(args[0])
        if isinstance(v, Arr):
            return E.map1(v, lambda t: If(t >= 0, t, -t))
        v = term(v)
        return If(v >= 0, v, -v)
    if name in ('min', 'max'):
        vs = [E.val(a) for a in args]
        if len(vs) == 1:
            a = asarr(E, vs[0])
            return fold(E, a, 0, False, name)
        r = vs[0]
        for x in vs[1:]:
            a, b = E.unify(r, x)
            r = If(b > a, b, a) if name == 'max' else If(b < a, b, a)
        return r
    if name == 'sum':
        a = asarr(E, args[0])
        return fold(E, a, 0, False, 'sum')
    if name in ('any', 'all'):
        s = E.aslist(args[0])
        i = z3.Int('any!i')
        t = E.truth(s[i])
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        rng = And(i >= 0, i < s.n)
        return z3.Exists([i], And(rng, t)) if name == 'any' else forall([i], Implies(rng, t))
    if name == 'isinstance':
        return isinst(E, E.val(args[0]), E.val(args[1]))
    if name == 'getattr':
        a = E.val(args[1])
        if isinstance(a, str):
            return E.attr(args[0], a, line)
    if name in ('ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'AssertionError', 'Exception', 'NotImplementedError'):
        return Opq('exception')
    raise Unsupported('function %s line %s' % (name, line))


def pathname(E, p):
    p = E.val(p)
    if isinstance(p, Opq) and p.what == 'path':
        return '/'.join(pathname(E, x) for x in p.parts)
    if isinstance(p, str):
        return p
    return str(p)


def isinst(E, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    r = False
    for x in ts:
        n = x.name if isinstance(x, Bi) else ''
        if n == 'int':
            r = r or isinstance(v, int) or isinstance(v, z3.ExprRef) and v.sort() in (INT, BOOL)
        elif n == 'float':
            r = r or isinstance(v, float) or isinstance(v, z3.ExprRef) and v.sort() == REAL
        elif n == 'numpy.ndarray':
            r = r or isinstance(v, Arr)
        elif n in ('list',):
            r = r or isinstance(v, Seq)
        elif n == 'tuple':
            r = r or isinstance(v, tuple)
        elif n == 'str':
            r = r or isinstance(v, str) or isinstance(v, z3.ExprRef) and v.sort() == STR
        else:
            raise Unsupported('isinstance %s' % n)
    return r


def card(E, v):
    c = E.fresh('card', INT)
    E.assume(c >= 0)
    s = getattr(v, 'src', None)
    x = z3.Const('card!x', v.sort)
    E.fact(Implies(c == 0, forall([x], Not(z3.Select(v.mem, x)), [z3.Select(v.mem, x)])))
    E.fact(Implies(c != 0, z3.Exists([x], z3.Select(v.mem, x))))
    if s is not None:
        i, j = z3.Ints('card!i card!j')
        f = lambda k: term(s[k], E.S)
        E.n += 1
        di, dj = z3.Int('dup!i%d' % E.n), z3.Int('dup!j%d' % E.n)
        E.fact(c <= s.n)
        E.fact(Implies(c == s.n, forall([i, j], Implies(And(i >= 0, i < j, j < s.n), f(i) != f(j)), [z3.MultiPattern(f(i), f(j))])))
        E.fact(Implies(c != s.n, And(di >= 0, di < dj, dj < s.n, f(di) == f(dj))))
        E.assumed.add('a list has as many elements as its set exactly when they are distinct')
    return c


def sorted_(E, v):
    w = E.val(v)
    if isinstance(w, SetV):
        E.n += 1
        f = z3.Function('sorted!%d' % E.n, INT, w.sort)
        g = z3.Function('place!%d' % E.n, w.sort, INT)
        n = z3.Const('sorted.len!%d' % E.n, INT)
        i, j = z3.Ints('srt!i srt!j')
        x = z3.Const('srt!x', w.sort)
        E.fact(n >= 0)
        E.fact(forall([i], Implies(And(i >= 0, i < n), And(z3.Select(w.mem, f(i)), g(f(i)) == i)), [f(i)]))
        E.fact(forall([x], Implies(z3.Select(w.mem, x), And(g(x) >= 0, g(x) < n, f(g(x)) == x)), [z3.Select(w.mem, x)]))
        E.fact(forall([i, j], Implies(And(i >= 0, i < j, j < n), f(i) < f(j)), [z3.MultiPattern(f(i), f(j))]))
        return Seq(n, lambda k: f(k))
    raise Unsupported('sorted of a list')


def numpy(E, n, args, kw, line):
    a0 = E.val(args[0]) if args else None
    k = lambda name, pos, d=None: kw.get(name, args[pos] if len(args) > pos else d)
    if n in ('array', 'asarray', 'copy', 'ascontiguousarray'):
        r = asarr(E, a0)
        dt = kw.get('dtype')
        if dt is not None:
            r = astype(E, r, dt)
        if isinstance(a0, Arr) and n == 'asarray':
            return args[0]
        if r.rank == 0:
            return r
        return Arr(r.shape, r.f, r.dt)
    if n in ('int64', 'int32', 'uint32', 'float64', 'float32'):
        return astype(E, asarr(E, a0), Bi('numpy.' + n))()
    if n in ('round', 'around', 'rint'):
        a = asarr(E, a0)
        if a.dt == 'int':
            return a
        return E.map1(a, lambda t: z3.ToReal(rnd(E, t)), 'real')
    if n in ('not_equal', 'equal'):
        return bcast(E, args, lambda x, y: (lambda p: p[0] != p[1] if n == 'not_equal' else p[0] == p[1])(E.unify(x, y)), 'bool')
    if n in ('less', 'less_equal', 'greater', 'greater_equal'):
        f = {'less': lambda x, y: x < y, 'less_equal': lambda x, y: x <= y, 'greater': lambda x, y: x > y, 'greater_equal': lambda x, y: x >= y}[n]
        return bcast(E, args, lambda x, y: f(*E.unify(x, y)), 'bool')
    if n in ('logical_and', 'logical_or'):
        return bcast(E, args, And if n == 'logical_and' else Or, 'bool')
    if n == 'logical_not':
        return E.map1(asarr(E, a0), Not)
    if n in ('add', 'subtract', 'multiply', 'divide', 'power'):
        op = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div, 'power': ast.Pow}[n]()
        return arrop(E, op, asarr(E, a0), asarr(E, args[1]))
    if n in ('maximum', 'minimum'):
        def g(x, y):
            x, y = E.unify(x, y)
            return If(x >= y, x, y) if n == 'maximum' else If(x <= y, x, y)
        return bcast(E, args, g, None)
    if n == 'clip':
        lo, hi = k('a_min', 1), k('a_max', 2)
        r = asarr(E, a0)
        if lo is not None:
            r = numpy(E, 'maximum', [r, lo], {}, line)
        if hi is not None:
            r = numpy(E, 'minimum', [r, hi], {}, line)
        return r
    if n in ('abs', 'absolute', 'fabs'):
        return E.map1(asarr(E, a0), lambda t: If(t >= 0, t, -t))
    if n == 'sqrt':
        return E.map1(asarr(E, a0), lambda t: sqrt(E, t), 'real')
    if n == 'where':
        if len(args) == 1:
            c = asarr(E, a0)
            if c.rank != 1:
                raise Unsupported('np.where of rank %d' % c.rank)
            cnt, pos = E.select(c.shape[0], lambda i: c(i))
            return (Arr([cnt], lambda j: pos(j), 'int'),)
        dt = 'real' if any(asarr(E, x).dt == 'real' for x in args[1:]) else asarr(E, args[1]).dt
        r = bcast(E, args, lambda c, x, y: If(c, *E.unify(x, y)), None)
        r.dt = dt
        return r
    if n == 'diff':
        a = asarr(E, a0)
        if a.rank != 1:
            raise Unsupported('np.diff')
        return Arr([simp(If(a.n > 0, a.n - 1, I0))], lambda i: a(simp(i + 1)) - a(i), a.dt)
    if n == 'cumsum':
        a = asarr(E, a0)
        if a.rank != 1:
            raise Unsupported('np.cumsum')
        E.n += 1
        s = z3.Function('cumsum!%d' % E.n, INT, a.sort())
        i = z3.Int('cs!i')
        E.fact(Implies(a.n > 0, s(I0) == a(I0)))
        E.fact(forall([i], Implies(And(i >= 0, i + 1 < a.n), s(i + 1) == s(i) + a(simp(i + 1))), [s(i + 1)]))
        if E.opts.get('on_cumsum'):
            E.opts['on_cumsum'](E, a.n, s)
        return Arr([a.n], lambda j: s(j), a.dt)
    if n == 'transpose':
        a = asarr(E, a0)
        ax = [axis_of(x, a.rank) for x in permutation(E, k('axes', 1), a.rank)]
        inv = [ax.index(d) for d in range(a.rank)]
        return Arr([a.shape[x] for x in ax], lambda *i: a(*[i[inv[d]] for d in range(a.rank)]), a.dt, E.viewdeps(args[0], a) if isinstance(args[0], Cell) else a.deps)
    if n == 'reshape':
        return reshape(E, args[0], asarr(E, a0), shape_arg(E, k('newshape', 1)))
    if n in ('zeros', 'ones', 'full'):
        sh = shape_arg(E, a0)
        v = {'zeros': 0.0, 'ones': 1.0}.get(n, args[1] if len(args) > 1 else None)
        t = term(E.val(v))
        r = Arr([term(s) for s in sh], lambda *i: t, dt_of(t))
        return astype(E, r, kw['dtype']) if 'dtype' in kw else r
    if n in ('zeros_like', 'ones_like'):
        a = asarr(E, a0)
        t = E.num(z3.IntVal(0 if n == 'zeros_like' else 1), a.dt)
        return Arr(a.shape, lambda *i: t, a.dt)
    if n == 'concatenate':
        ps = [asarr(E, x) for x in (a0 if isinstance(a0, tuple) else [a0[j] for j in range(cint(a0.n))])]
        ax = axis_of(kw.get('axis', args[1] if len(args) > 1 else 0), ps[0].rank)
        return concat(E, ps, ax)
    if n == 'stack':
        ps = [asarr(E, x) for x in (a0 if isinstance(a0, tuple) else [a0[j] for j in range(cint(a0.n))])]
        ax = axis_of(kw.get('axis', 0), ps[0].rank + 1)
        dt = 'real' if any(p.dt == 'real' for p in ps) else ps[0].dt
        for p in ps[1:]:
            for x, y in zip(p.shape, ps[0].shape):
                if not simp(x).eq(simp(y)):
                    E.oblige('stacked shapes agree', x == y, 'shape', line)

        def at(*i):
            j = i[:ax] + i[ax + 1:]
            r = E.num(ps[-1](*j), dt)
            for q in range(len(ps) - 2, -1, -1):
                c = simp(i[ax] == q)
                r = If(c, E.num(ps[q](*j), dt), r) if not z3.is_true(c) else E.num(ps[q](*j), dt)
            return r
        sh = list(ps[0].shape)
        sh.insert(ax, z3.IntVal(len(ps)))
        return Arr(sh, at, dt)
    if n == 'pad':
        a = asarr(E, a0)
        w = E.val(args[1])
        w = w if isinstance(w, tuple) else tuple(w[j] for j in range(cint(w.n)))
        mode = k('mode', 2, 'constant')
        if mode != 'constant':
            raise Unsupported('np.pad mode')
        cv = term(E.val(kw.get('constant_values', 0)))
        lo = [term(x[0]) for x in w]
        hi = [term(x[1]) for x in w]

        def at(*i):
            c = [And(i[d] >= lo[d], i[d] < lo[d] + a.shape[d]) for d in range(a.rank) if not (cint(lo[d]) == 0 and cint(hi[d]) == 0)]
            c = simp(And(*c)) if c else TRUE
            v = a(*[simp(i[d] - lo[d]) for d in range(a.rank)])
            return If(c, v, E.num(cv, a.dt)) if not z3.is_true(c) else v
        return Arr([simp(a.shape[d] + lo[d] + hi[d]) for d in range(a.rank)], at, a.dt)
    if n == 'linalg.norm':
        a = asarr(E, a0)
        ax = kw.get('axis')
        if ax is None:
            raise Unsupported('norm without axis')
        s = fold(E, E.map1(a, lambda t: E.mul(E.num(t, 'real'), E.num(t, 'real')), 'real'), axis_of(ax, a.rank), bool(kw.get('keepdims', False)), 'sum')
        return E.map1(s, lambda t: sqrt(E, t), 'real') if isinstance(s, Arr) else sqrt(E, s)
    if n in ('sum', 'max', 'amax', 'min', 'amin', 'any', 'all', 'mean'):
        a = asarr(E, a0)
        ax = k('axis', 1)
        what = {'amax': 'max', 'amin': 'min'}.get(n, n)
        if ax is None:
            if a.rank == 1:
                return fold(E, a, 0, False, what)
            raise Unsupported('np.%s over all axes' % n)
        return fold(E, a, axis_of(ax, a.rank), bool(kw.get('keepdims', False)), what)
    if n in ('arctan2', 'degrees', 'cos', 'sin', 'exp', 'log', 'radians'):
        f = z3.Function(n, *([REAL] * len(args)), REAL)
        return bcast(E, args, lambda *t: f(*[E.num(x, 'real') for x in t]), 'real')
    if n == 'squeeze':
        a = asarr(E, a0)
        ax = axis_of(kw['axis'], a.rank)
        return Arr(a.shape[:ax] + a.shape[ax + 1:], lambda *i: a(*(i[:ax] + (I0,) + i[ax:])), a.dt)
    if n == 'expand_dims':
        a = asarr(E, a0)
        ax = axis_of(k('axis', 1), a.rank + 1)
        return Arr(a.shape[:ax] + [I1] + a.shape[ax:], lambda *i: a(*(i[:ax] + i[ax + 1:])), a.dt)
    if n == 'repeat':
        a = asarr(E, a0)
        m, ax = args[1], kw.get('axis')
        if ax is not None and cint(a.shape[axis_of(ax, a.rank)]) == 1:
            ax = axis_of(ax, a.rank)
            sh = list(a.shape)
            sh[ax] = term(m)
            return Arr(sh, lambda *i: a(*(i[:ax] + (I0,) + i[ax + 1:])), a.dt)
    if n == 'load':
        return E.opts['files'](E, pathname(E, args[0]))
    raise Unsupported('numpy.%s line %s' % (n, line))


def concat(E, ps, ax):
    dt = 'real' if any(p.dt == 'real' for p in ps) else ps[0].dt
    r = ps[0]
    for q in ps[1:]:
        for d in range(r.rank):
            if d != ax and not simp(q.shape[d]).eq(simp(r.shape[d])):
                E.oblige('concatenated shapes agree', q.shape[d] == r.shape[d], 'shape')

        def at(*i, r=r, q=q):
            c = simp(i[ax] < r.shape[ax])
            j = i[:ax] + (simp(i[ax] - r.shape[ax]),) + i[ax + 1:]
            if z3.is_true(c):
                return E.num(r(*i), dt)
            if z3.is_false(c):
                return E.num(q(*j), dt)
            return If(c, E.num(r(*i), dt), E.num(q(*j), dt))
        sh = list(r.shape)
        sh[ax] = simp(sh[ax] + q.shape[ax])
        r = Arr(sh, at, dt)
    return r


def shape_arg(E, s):
    s = E.val(s)
    if isinstance(s, tuple):
        return list(s)
    if isinstance(s, Seq):
        return [s[j] for j in range(cint(s.n))]
    return [s]


def permutation(E, s, rank):
    s = E.val(s)
    if s is None:
        return list(range(rank))[::-1]
    if isinstance(s, tuple):
        return list(s)
    return [s[j] for j in range(cint(s.n))]


def astype(E, a, dt):
    d = E.val(dt)
    n = d.name.split('.')[-1] if isinstance(d, Bi) else d if isinstance(d, str) else ''
    if n.startswith('int') or n.startswith('uint'):
        bits = int(re.sub(r'\D', '', n) or 64)
        lo, hi = (0, 1 << bits) if n.startswith('u') else (-(1 << bits - 1), 1 << bits - 1)
        # a narrower type keeps only the values it can hold
        fit = lambda t: t if bits == 64 or z3.is_int_value(z3.simplify(t)) and lo <= z3.simplify(t).as_long() < hi else z3.If(z3.And(t >= lo, t < hi), t, z3.Function('wrap_' + n, z3.IntSort(), z3.IntSort())(t))
        if a.dt == 'real':
            return E.map1(a, lambda t: fit(z3.ToInt(t) if integral(t) else uftrunc(E, t)), 'int')
        return E.map1(a, lambda t: fit(E.num(t, 'int')), 'int')
    if n.startswith('float'):
        return E.map1(a, lambda t: E.num(t, 'real'), 'real')
    if n.startswith('bool'):
        return E.map1(a, lambda t: t if t.sort() == BOOL else t != 0, 'bool')
    raise Unsupported('dtype %s' % n)


def integral(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL


# ------------------------------------------------------------------ protobuf
def enum_of(E, parts):
    """enum named by a dotted path such as Breakdown.GeneratorId"""
    return E.P.enum('_'.join(parts)) or E.P.enum(parts[-1])


def proto_function(E, n, args, kw, line):
    i = next(j for j, p in enumerate(n) if p.endswith('_pb2'))
    rest = n[i + 1:]
    if rest[-1] in ('Name', 'Value') and len(rest) > 1 and enum_of(E, rest[:-1]) and args:
        vals = E.P.enums[enum_of(E, rest[:-1])]
        v = E.val(args[0])
        if rest[-1] == 'Name':
            t = term(v)
            c = cint(t)
            if c is not None:
                r = next((k for k, x in vals.items() if x == c), None)
                if r is None:
                    raise Raise('ValueError')
                return r
            E.oblige('a declared enum value', Or(*[t == x for x in vals.values()]), 'bounds', line)
            return enum_name(E, vals, t)
        if isinstance(v, str):
            if v not in vals:
                raise Raise('ValueError')
            return vals[v]
        E.n += 1
        ok = z3.Function('declared ' + '_'.join(rest[:-1]), STR, BOOL)
        if not E.branch(ok(v), line):
            raise Raise('ValueError')
        return z3.Function('number of ' + '_'.join(rest[:-1]), STR, INT)(v)
    if rest[-1] == 'FromString':
        full = E.P.message('_'.join(rest[:-1]))
        return E.alloc(E.proto(full, 'decoded'))
    full = E.P.message('_'.join(rest))
    if full is None:
        raise Unsupported('protobuf call %s line %s' % ('.'.join(n), line))
    p = E.default_proto(full)
    fs = {f['name']: f for f in E.P.messages[full]['fields']}
    for k, v in kw.items():
        if k not in fs:
            raise Raise('ValueError')
        v = E.snap(v)
        if fs[k]['repeated']:
            v = E.aslist(v)
        else:
            p = p.set('has_' + k, TRUE)
            if E.ftype(fs[k]) == 'real' and not isinstance(v, (Pro, Seq)):
                v = E.num(v, 'real')
        p = p.set(k, v)
    return E.alloc(p)


def target(v):
    return (v, ()) if isinstance(v, Cell) else (v.cell, v.path)


def write(E, v, new):
    """replaces the value designated by a cell or field reference"""
    if isinstance(v, Cell):
        E.store(v, new)
        return
    c, path = target(v)

    def go(p, path):
        f = path[0]
        q = p.set(f, new if len(path) == 1 else go(p[f], path[1:]))
        fs = {x['name']: x for x in E.P.messages[p.name]['fields']}
        return q if fs[f]['repeated'] else q.set('has_' + f, TRUE)
    E.store(c, go(E.heap[c.i], path))


def method(E, obj, m, args, kw, line):
    w = E.val(obj)
    if isinstance(w, Seq):
        if m == 'append':
            need(obj, line)
            write(E, obj, E.append(w, E.snap(args[0])))
            return None
        if m == 'extend':
            need(obj, line)
            write(E, obj, E.concat(w, E.aslist(args[0])))
            return None
        if m == 'insert' and cint(args[0]) == 0:
            need(obj, line)
            write(E, obj, E.concat(E.listof([E.snap(args[1])]), w))
            return None
        if m == 'copy':
            return w
        if m == 'add' and isinstance(obj, Ref):
            c, path = target(obj)
            p = E.heap[c.i]
            for f in path[:-1]:
                p = p[f]
            d = {x['name']: x for x in E.P.messages[p.name]['fields']}[path[-1]]
            msg = E.default_proto(d['ctype'])
            fs = {f['name']: f for f in E.P.messages[d['ctype']]['fields']}
            for k, v in kw.items():
                msg = msg.set(k, E.aslist(v) if fs[k]['repeated'] else E.snap(v))
                if not fs[k]['repeated']:
                    msg = msg.set('has_' + k, TRUE)
            write(E, obj, E.append(w, msg))
            return None
        if m in ('index', 'count', 'pop', 'sort', 'remove', 'reverse'):
            raise Unsupported('list.%s line %s' % (m, line))
    if isinstance(w, Arr):
        if m == 'copy':
            return Arr(w.shape, w.f, w.dt)
        if m == 'astype':
            return astype(E, w, args[0] if args else kw['dtype'])
        if m == 'tolist':
            if w.rank == 1:
                return Seq(w.n, lambda i: w(i))
            raise Unsupported('tolist')
        if m in ('reshape',):
            sh = args[0] if len(args) == 1 else tuple(args)
            r = reshape(E, obj, w, shape_arg(E, sh))
            return Arr(r.shape, r.f, r.dt, E.viewdeps(obj, w) if isinstance(obj, Cell) else w.deps)
        if m in ('flatten', 'ravel'):
            return reshape(E, obj, w, [-1])
        if m == 'transpose':
            ax = args[0] if len(args) == 1 else tuple(args)
            return numpy(E, 'transpose', [obj, ax], {}, line)
        if m in ('max', 'min', 'sum', 'any', 'all', 'mean', 'round', 'clip', 'cumsum', 'squeeze'):
            return numpy(E, m, [obj] + list(args), kw, line)
        if m == 'item':
            return w()
    if isinstance(w, Pro):
        if m == 'HasField':
            f = E.val(args[0])
            fs = {x['name']: x for x in E.P.messages[w.name]['fields']}
            if not isinstance(f, str) or f not in fs or fs[f]['repeated']:
                raise Raise('ValueError')
            return w['has_' + f]
        if m in ('CopyFrom', 'MergeFrom'):
            if m == 'MergeFrom':
                raise Unsupported('MergeFrom')
            write(E, obj, E.val(args[0]))
            return None
        if m == 'SerializeToString':
            return Opq('serialized', (w,))
        if m == 'WhichOneof':
            raise Unsupported('WhichOneof')
    if isinstance(w, Dict):
        if m == 'get':
            for k, x in w.items:
                if E.branch(zt(E.equal(k, args[0])), line):
                    return x
            return args[1] if len(args) > 1 else None
        if m == 'update':
            d = E.val(args[0])
            keys = [k for k, _ in d.items]
            E.store(obj, Dict([(k, v) for k, v in w.items if k not in keys] + list(d.items)))
            return None
        if m == 'items':
            return tuple((k, v) for k, v in w.items)
        if m == 'keys':
            return tuple(k for k, v in w.items)
        if m == 'values':
            return tuple(v for k, v in w.items)
    if isinstance(w, SetV):
        if m == 'add':
            need(obj, line)
            E.store(obj, SetV(z3.Store(w.mem, term(E.val(args[0]), E.S), TRUE), w.sort))
            return None
        if m == 'update':
            need(obj, line)
            o = SetV(E.members(E.aslist(args[0])), w.sort)
            E.store(obj, E.setop(w, o, lambda p, q: Or(p, q)))
            return None
        if m == 'difference':
            return E.setop(w, SetV(E.members(E.aslist(args[0])), w.sort), lambda p, q: And(p, Not(q)))
    if isinstance(w, Opq) and w.what == 'empty set' and m == 'add' and isinstance(obj, Opq):
        raise Unsupported('set() without element sort')
    if isinstance(w, (str, z3.ExprRef)) and (isinstance(w, str) or w.sort() == STR):
        if m == 'format' and isinstance(w, str):
            parts = w.split('{}')
            if '{' in ''.join(parts) or len(parts) - 1 != len(args):
                return E.fresh('text', STR)
            out = [parts[0]]
            for a, p in zip(args, parts[1:]):
                out += [E.text(a), p]
            return E.cat(out)
        if m == 'join' and isinstance(w, str):
            s = E.val(args[0])
            c = cint(E.aslist(s).n)
            if c is not None:
                s = E.aslist(s)
                out = []
                for j in range(c):
                    out += ([w] if j else []) + [E.text(s[j])]
                return E.cat(out)
            return E.fresh('text', STR)
        if m in ('endswith', 'startswith'):
            return z3.Function('str.' + m, STR, STR, BOOL)(term(w, E.S), term(E.val(args[0]), E.S))
        if m in ('strip', 'lower', 'upper', 'rstrip', 'lstrip'):
            return z3.Function('str.' + m, STR, STR)(term(w, E.S))
    if isinstance(w, Opq):
        if w.what == 'file' and m == 'readlines':
            return E.opts['files'](E, pathname(E, w.parts[0]))
        return Opq('%s.%s()' % (w.what, m), (w,) + tuple(args) + tuple(kw.values()))
    raise Unsupported('method %s of %s line %s' % (m, type(w).__name__, line))


def zt(b):
    return b


def need(obj, line):
    if not isinstance(obj, (Cell, Ref)):
        raise Unsupported('mutation of a value read from a container line %s' % line)

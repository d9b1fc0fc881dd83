"""Models (assumed contracts) of the standard library, absl, glog and protobuf
accessors, and call resolution for the C++ VC generator.

Resolution order of a call: contract of the callee -> model -> the callee's
real body, inlined -> Unsupported.
"""
import re
import z3
from .cxx import (And, Or, Not, Implies, If, Ptr, Ref, Iter, Lam, Opq, LV, Dead, NotLV, NotLV2, TRUE, FALSE, I0, I1,
                  Unsupported, State, Frame, simp, BindError)
from .cxxsorts import STR, OPQ

R = z3.RealVal
MODELS_USED = set()


def used(name):
    MODELS_USED.add(name)


# ------------------------------------------------------------------ helpers
BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES}


def multipattern(*args, _orig=z3.MultiPattern):
    keep = list(args)               # z3py drops its references to the terms before the pattern holds them
    r = _orig(*args)
    del keep
    return r


if z3.MultiPattern is not multipattern and z3.MultiPattern.__name__ != 'multipattern':
    z3.MultiPattern = multipattern


def badpat(t):
    """terms that cannot occur in a pattern"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.decl().kind() in BADPAT:
            if not z3.is_var(x):
                return True
        todo += x.children()
    return False


def forall(vs, body, pats=None):
    pats = [p for p in pats or [] if isinstance(p, z3.PatternRef) or not badpat(p)]
    if pats:
        try:
            return z3.ForAll(vs, body, patterns=pats)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def ev(E, a):
    return E.ev(a)


def real(E, v):
    return E.coerce_sort(v, z3.RealSort())


def append(E, lv, v):
    t = E.read(lv)
    i = E.info(t)
    n = i.get(t, 'len')
    E.write(lv, i.make(simp(n + 1), z3.Store(i.get(t, 'data'), n, E.coerce_sort(v, i.elem))))
    return n


def resize(E, t, n, v):
    i = E.info(t)
    old = i.get(t, 'len')
    if z3.is_int_value(simp(old)) and simp(old).as_long() == 0:
        return i.make(n, z3.K(z3.IntSort(), v))
    d = E.fresh('rsz', i.get(t, 'data').sort())
    k = E.fresh('k', z3.IntSort())
    E.assume(forall([k], z3.Select(d, k) == If(And(k >= old, k < n), v, z3.Select(i.get(t, 'data'), k)), [z3.Select(d, k), z3.Select(i.get(t, 'data'), k)]))
    return i.make(n, d)


def slice_append(E, dst, src, lo, hi):
    """dst ++ src[lo:hi]"""
    i, j = E.info(dst), E.info(src)
    n = i.get(dst, 'len')
    cnt = simp(hi - lo)
    if z3.is_int_value(simp(n)) and simp(n).as_long() == 0 and z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0 and i.elem == j.elem:
        return i.make(hi, j.get(src, 'data'))
    if z3.is_int_value(cnt) and cnt.as_long() <= 8:
        d = i.get(dst, 'data')
        for q in range(cnt.as_long()):
            d = z3.Store(d, simp(n + q), E.coerce_sort(z3.Select(j.get(src, 'data'), simp(lo + q)), i.elem))
        return i.make(simp(n + cnt), d)
    d = E.fresh('app', i.get(dst, 'data').sort())
    k = E.fresh('k', z3.IntSort())
    el = z3.Select(j.get(src, 'data'), lo + (k - n))
    E.assume(forall([k], Implies(And(k >= 0, k < n), z3.Select(d, k) == z3.Select(i.get(dst, 'data'), k)), [z3.Select(d, k)]))
    E.assume(forall([k], Implies(And(k >= n, k < n + cnt), z3.Select(d, k) == E.coerce_sort(el, i.elem)), [z3.Select(d, k)]))
    return i.make(n + cnt, d)


def fget(E, lv_or_val):
    return E.read(lv_or_val) if isinstance(lv_or_val, LV) else lv_or_val


def obj(E, e):
    """lvalue of the object a member call acts on"""
    b = e['b']
    if e.get('arrow'):
        if b['k'] == 'this':
            return E.ev(b).lv
        blv, v = E.lvv(b)
        if isinstance(v, Ptr):
            return E.deref(v, e)
        if isinstance(v, Iter):
            return E.iter_lv(v, e)
        if isinstance(v, z3.ExprRef) and E.S.info.get(v.sort()) and E.info(v).kind == 'opt':
            E.oblige('null-dereference', E.get(v, 'has'), 'null', e.get('l'))
            return blv.then(('opt', None)) if blv is not None else E.temp(E.get(v, 'val'))
        if isinstance(v, z3.ExprRef) and v.sort() == OPQ:
            return E.temp(v)
        raise Unsupported('-> on %r line %s' % (v, e.get('l')))
    return E.lv_or_temp(b)


# ------------------------------------------------------------------ math
def fmin(E, a, b):
    return If(b < a, b, a)


def fmax(E, a, b):
    return If(a < b, b, a)


def floor_(x):
    return z3.ToInt(x)


def sqrt_(E, x):
    used('sqrt')
    f = E.func('sqrt', z3.RealSort(), z3.RealSort())
    r = f(x)
    E.axiom(Implies(x >= 0, And(r >= 0, E.mul(r, r) == x)))
    return r


def sin_(E, x):
    used('sin/cos: sin^2+cos^2=1')
    s = E.func('sin', z3.RealSort(), z3.RealSort())(x)
    c = E.func('cos', z3.RealSort(), z3.RealSort())(x)
    E.axiom(E.mul(s, s) + E.mul(c, c) == 1)
    return s


def cos_(E, x):
    sin_(E, x)
    return E.func('cos', z3.RealSort(), z3.RealSort())(x)


PI = z3.Q(31415926535897931, 10000000000000000)


def math(E, name, a):
    if name in ('abs', 'fabs', 'fabsf'):
        x = a[0]
        return If(x >= 0, x, -x)
    if name == 'min':
        return fmin(E, a[0], a[1])
    if name == 'max':
        return fmax(E, a[0], a[1])
    a = [real(E, x) for x in a]
    if name in ('sqrt', 'sqrtf'):
        return sqrt_(E, a[0])
    if name in ('hypot', 'hypotf'):
        return sqrt_(E, E.mul(a[0], a[0]) + E.mul(a[1], a[1]))
    if name == 'sin':
        return sin_(E, a[0])
    if name == 'cos':
        return cos_(E, a[0])
    if name == 'floor':
        return z3.ToReal(z3.ToInt(a[0]))
    if name == 'ceil':
        return -z3.ToReal(z3.ToInt(-a[0]))
    if name == 'trunc':
        return If(a[0] >= 0, z3.ToReal(z3.ToInt(a[0])), -z3.ToReal(z3.ToInt(-a[0])))
    if name == 'round':
        h = R('1/2')
        return If(a[0] >= 0, z3.ToReal(z3.ToInt(a[0] + h)), -z3.ToReal(z3.ToInt(-a[0] + h)))
    if name == 'isfinite':
        return TRUE
    if name in ('isnan', 'isinf'):
        return FALSE
    if name == 'fma':
        return a[0] * a[1] + a[2]
    if name == 'copysign':
        m = If(a[0] >= 0, a[0], -a[0])
        return If(a[1] < 0, -m, m)
    if name == 'pow':
        sb = simp(a[1])
        if z3.is_rational_value(sb) and sb.denominator_as_long() == 1 and 0 <= sb.numerator_as_long() <= 6:
            r = R(1)
            for _ in range(sb.numerator_as_long()):
                r = r * a[0]
            return r
        used('pow uninterpreted')
        return E.func('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())(a[0], a[1])
    if name == 'atan2':
        used('atan2 uninterpreted, range [-pi, pi]')
        r = E.func('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())(a[0], a[1])
        E.axiom(And(r >= -PI, r <= PI))
        return r
    if name in ('log2', 'log', 'exp', 'tan', 'atan', 'acos', 'asin', 'cbrt'):
        used(name + ' uninterpreted')
        return E.func(name, z3.RealSort(), z3.RealSort())(a[0])
    raise Unsupported('math ' + name)


MATH = {'abs', 'fabs', 'sqrt', 'hypot', 'sin', 'cos', 'floor', 'ceil', 'trunc', 'round', 'isfinite', 'isnan', 'isinf', 'fma',
        'copysign', 'pow', 'atan2', 'log2', 'log', 'exp', 'tan', 'atan', 'acos', 'asin', 'fabsf', 'sqrtf'}


# ------------------------------------------------------------------ constructors
def record_default(E, ty, uninit=True):
    s = E.sort(ty)
    i = E.S.info.get(s)
    d = E.kd(ty)
    if i is None or i.kind != 'rec' or E.S.strip(ty) not in E.P.records:
        return E.S.default_of_sort(s)
    vals = []
    inits = {}

    def rec(t):
        r = E.P.records[t]
        for b in r['bases']:
            if b in E.P.records:
                rec(b)
        for f in r['fields']:
            if 'init' in f:
                inits[f['n']] = f['init']
    rec(E.S.strip(ty))
    for n, fs, ft in i.fields:
        if n in inits:
            vals.append(E.coerce_sort(E.coerce(E.init_value(inits[n], ft), ft), fs))
        elif fs in (z3.IntSort(), z3.RealSort(), z3.BoolSort()) and uninit and not n.startswith('__'):
            vals.append(E.fresh('uninit_' + n, fs))
        elif ft and E.S.strip(ft) in E.P.records:
            vals.append(E.coerce_sort(record_default(E, ft), fs))
        else:
            vals.append(E.S.default_of_sort(fs))
    return i.make(*vals)


def user_ctor(E, fn, args, ty):
    t = E.temp(record_default(E, ty))
    E.call_fn(fn, t, args, None)
    return E.read(t)


def find_ctor(E, ty, nargs):
    d = E.kd(ty)
    base = d.get('n', '')
    short = base.split('::')[-1]
    r = [f for f in E.P.fns.values() if f.get('ctor') and f.get('rec') and E.S.strip(f['rec']) == E.S.strip(ty) and len(f['params']) == nargs]
    return r


def construct(E, ty, args_e, e=None):
    """T(args...) with argument expressions"""
    s = E.sort(ty)
    i = E.S.info.get(s)
    if len(args_e) == 1:
        v = E.ev(args_e[0], want=None)
        if not isinstance(v, z3.ExprRef):
            return v
        if v.sort() == s:
            return v
    c = find_ctor(E, ty, len(args_e))
    if len(c) == 1:
        return user_ctor(E, c[0], E.args_for(c[0], args_e), ty)
    if not args_e:
        return record_default(E, ty)
    if i and i.kind == 'rec' and len(args_e) == len(i.fields):
        return i.make(*[E.coerce_sort(E.coerce(E.ev(a), f[2]) if f[2] else E.ev(a), f[1]) for a, f in zip(args_e, i.fields)])
    if len(args_e) == 1:
        return E.coerce_sort(v, s)
    raise Unsupported('construction of %s with %d args' % (ty, len(args_e)))


def range_of(E, a, b, line=None):
    """(value, lo, hi) of an iterator pair over one container"""
    if not (isinstance(a, Iter) and isinstance(b, Iter)) or a.kind != 'vec':
        raise Unsupported('iterator range')
    return E.read(a.lv), a.idx, b.idx


def ctor(E, e, want=None):
    ty = e['t']
    args = e['args']
    key = e.get('key')
    q = e.get('q', '')
    if e.get('copy') and len(args) == 1 and key not in E.P.fns:
        v = E.ev(args[0], want)
        if isinstance(v, z3.ExprRef):
            return E.coerce(v, ty)
        return v
    s = E.sort(ty)
    i = E.S.info.get(s)
    d = E.kd(ty)
    n = d.get('n', '')
    if q in E.callees:
        return user_contract(E, q, e, None, args, None)
    if key in E.P.fns and n not in ('absl::Status', 'absl::StatusOr'):
        fn = E.P.fns[key]
        return user_ctor(E, fn, E.args_for(fn, args), ty)
    if n == 'google::LogMessageFatal':
        fatal(E, e)
    if n == 'google::CheckOpString' or 'CheckOpString' in n:
        return E.ev(args[0])
    if n == 'absl::AlphaNum' and E.opts.get('strings') and args:
        v = E.ev(args[0])
        return v if isinstance(v, z3.ExprRef) else E.fresh('str', STR)
    if n.startswith('google::LogMessage') or n.startswith('std::allocator') or n == 'absl::AlphaNum' or 'FormatSpec' in n or n == 'std::nullopt_t':
        return Opq(n)
    if n in E.S.STRS:
        if not args:
            return E.S.lit('')
        v = E.ev(args[0])
        if isinstance(v, z3.ExprRef) and v.sort() == STR:
            return v
        return E.fresh('str', STR)
    if i is not None and i.kind == 'vec':
        args = [a for a in args if not str(E.kd(a.get('t', '')).get('n', '')).startswith('std::allocator')]
        if not args:
            if n == 'std::array' and str(d['args'][1]).isdigit():
                x = E.fresh('array_uninit', s)
                return i.make(z3.IntVal(int(d['args'][1])), i.get(x, 'data'))
            return E.S.default_of_sort(s)
        v = E.ev(args[0], want=ty)
        if e.get('ilist') or (isinstance(v, z3.ExprRef) and E.S.info.get(v.sort()) and E.info(v).kind == 'vec'):
            return E.coerce_sort(v, s)
        if isinstance(v, Iter):
            b = E.ev(args[1])
            t, lo, hi = range_of(E, v, b)
            return slice_append(E, E.S.default_of_sort(s), t, lo, hi)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
            fill = E.coerce_sort(E.coerce(E.ev(args[1]), i.ety), i.elem) if len(args) > 1 else elem_default(E, i)
            E.oblige('non-negative size', v >= 0, 'wrap', e.get('l'))
            return i.make(v, z3.K(z3.IntSort(), fill))
        raise Unsupported('vector constructor line %s' % e.get('l'))
    if i is not None and i.kind in ('map', 'set'):
        if args and (E.kd(args[0].get('t', '')).get('n') == 'std::initializer_list' or args[0]['k'] == 'init'):
            lst = args[0]
            t = E.temp(E.S.default_of_sort(s))
            items = lst['args'] if lst['k'] == 'init' else None
            if items is None:
                raise Unsupported('map initializer')
            for it in items:
                if i.kind == 'set':
                    set_insert(E, t, E.coerce_sort(E.ev(it), i.fields[0][1].domain()))
                else:
                    pv = E.ev(it)
                    f = E.info(pv)
                    map_put(E, t, f.get(pv, f.fields[0][0]), f.get(pv, f.fields[1][0]))
            return E.read(t)
        if args and not (args[0].get('t', '').startswith('unsigned') or args[0].get('t', '') in ('int', 'std::size_t') or 'std::hash' in args[0].get('t', '') or 'allocator' in args[0].get('t', '') or 'Hash' in args[0].get('t', '')):
            v = E.ev(args[0])
            if isinstance(v, z3.ExprRef) and v.sort() == s:
                return v
            raise Unsupported('map or set constructor line %s' % e.get('l'))
        return E.S.default_of_sort(s)
    if i is not None and i.kind == 'opt':
        if not args:
            return E.S.default_of_sort(s)
        v = E.ev(args[0])
        if isinstance(v, Opq):
            return E.S.default_of_sort(s)
        if isinstance(v, Ptr):
            if n in ('std::unique_ptr', 'std::shared_ptr'):
                return E.coerce(v, ty)
            return v
        return E.coerce(v, ty)
    if i is not None and i.kind == 'fn':
        if not args:
            return E.S.default_of_sort(s)
        v = E.ev(args[0])
        if isinstance(v, Lam):
            return v
        if isinstance(v, Ptr) and v.lv is None:
            return E.S.default_of_sort(s)
        if isinstance(v, Opq):
            return i.make(TRUE, E.fresh('fn', OPQ))
        return E.coerce(v, ty)
    if i is not None and i.kind in ('status', 'statusor'):
        if not args:
            return E.S.default_of_sort(s)
        v = E.ev(args[0])
        return E.coerce_sort(v, s)
    if i is not None and i.kind == 'rec' and (n in ('std::pair', 'std::tuple') or n == 'google::protobuf::MapPair'):
        if not args:
            return E.S.default_of_sort(s)
        vals = [E.ev(a) for a in args]
        if len(vals) == 1:
            return E.coerce_sort(vals[0], s)
        return i.make(*[E.coerce_sort(E.coerce(v, f[2]), f[1]) for v, f in zip(vals, i.fields)])
    if i is not None and i.kind == 'proto':
        if not args:
            return E.S.default_of_sort(s)
    if not args and (e.get('defaulted') or i is not None):
        return record_default(E, ty, uninit=not e.get('list'))
    if len(args) == 1:
        v = E.ev(args[0])
        if not isinstance(v, z3.ExprRef):
            return v
        if s == OPQ:
            return v
        return E.coerce(v, ty)
    if s == OPQ:
        return Opq(n)
    raise Unsupported('constructor %s line %s' % (key, e.get('l')))


def elem_default(E, i):
    if i.ety and E.S.strip(i.ety) in E.P.records:
        return E.coerce_sort(record_default(E, i.ety, uninit=False), i.elem)
    return E.S.default_of_sort(i.elem)


def fatal(E, e):
    if E.opts['checks'] == 'prove':
        E.oblige('CHECK', FALSE, 'check', e.get('l'))
    E.st.dead = True
    raise Dead()


# ------------------------------------------------------------------ maps
def map_put(E, lv, k, v):
    t = E.read(lv)
    i = E.info(t)
    k = E.coerce_sort(k, i.fields[0][1].domain())
    dom = i.get(t, 'dom')
    card = If(z3.Select(dom, k), i.get(t, 'card'), i.get(t, 'card') + 1)
    E.write(lv, i.make(z3.Store(dom, k, TRUE), z3.Store(i.get(t, 'val'), k, E.coerce_sort(v, i.fields[1][1].range())), card))


def set_insert(E, lv, k):
    t = E.read(lv)
    i = E.info(t)
    dom = i.get(t, 'dom')
    was = z3.Select(dom, k)
    E.write(lv, i.make(z3.Store(dom, k, TRUE), If(was, i.get(t, 'card'), i.get(t, 'card') + 1)))
    return was


def map_erase(E, lv, k):
    t = E.read(lv)
    i = E.info(t)
    dom = i.get(t, 'dom')
    was = z3.Select(dom, k)
    nd = z3.Store(dom, k, FALSE)
    nc = If(was, i.get(t, 'card') - 1, i.get(t, 'card'))
    E.write(lv, i.set(i.set(t, 'dom', nd), 'card', nc))
    return was


def map_union(E, lv, a, b, i):
    """insert(begin, end) of a whole other map: keys already present keep their values"""
    if b.sort() != a.sort():
        raise Unsupported('insert of a range of another map type')
    ks = i.fields[0][1].domain()
    dom, val, card = E.fresh('dom', i.fields[0][1]), E.fresh('val', i.fields[1][1]), E.fresh('card', z3.IntSort())
    x = E.fresh('x', ks)
    f = lambda t, n: z3.Select(i.get(t, n), x)
    ca, cb = i.get(a, 'card'), i.get(b, 'card')
    E.fact(forall([x], z3.Select(dom, x) == Or(f(a, 'dom'), f(b, 'dom')), [z3.Select(dom, x), f(a, 'dom'), f(b, 'dom')]))
    E.fact(forall([x], z3.Select(val, x) == If(f(a, 'dom'), f(a, 'val'), f(b, 'val')), [z3.Select(val, x)]))
    common = E.fresh('common', ks)
    E.fact(And(card <= ca + cb, card >= ca, card >= cb, Or(card == ca + cb, And(z3.Select(i.get(a, 'dom'), common), z3.Select(i.get(b, 'dom'), common)))))
    E.write(lv, i.make(dom, val, card))


def set_union(E, lv, args, e):
    """insert(begin, end) of a whole other set or vector"""
    x, y = E.ev(args[0]), E.ev(args[1])
    if not (isinstance(x, Iter) and isinstance(y, Iter) and getattr(x, 'whole', False) and getattr(y, 'whole', False)):
        raise Unsupported('set insert range line %s' % e.get('l'))
    a, b = E.read(lv), E.read(x.lv)
    i = E.info(a)
    if b.sort() != a.sort():
        raise Unsupported('set insert of a range of another container')
    dom, card, k = E.fresh('dom', i.fields[0][1]), E.fresh('card', z3.IntSort()), E.fresh('x', i.fields[0][1].domain())
    f = lambda t: z3.Select(i.get(t, 'dom'), k)
    E.fact(forall([k], z3.Select(dom, k) == Or(f(a), f(b)), [z3.Select(dom, k), f(a), f(b)]))
    ca, cb = i.get(a, 'card'), i.get(b, 'card')
    E.fact(And(card <= ca + cb, card >= ca, card >= cb))
    E.write(lv, i.make(dom, card))


def pair_of(E, a, b):
    key = ('pair2', a.sort(), b.sort())
    if key not in E.S.cache:
        E.S.cache[key] = E.S.mk('rec', 'P2_%d' % len(E.S.cache), [('first', a.sort(), None), ('second', b.sort(), None)])
    return E.S.info[E.S.cache[key]].make(a, b)


def map_method(E, m, lv, t, i, args, e):
    ks = i.fields[0][1].domain()

    def k0():
        return E.coerce_sort(E.ev(args[0]), ks)
    if m == 'size':
        return i.get(t, 'card')
    if m == 'empty':
        return i.get(t, 'card') == 0
    if m in ('count',):
        return If(z3.Select(i.get(t, 'dom'), k0()), I1, I0)
    if m == 'contains':
        return z3.Select(i.get(t, 'dom'), k0())
    if m == 'find':
        k = k0()
        return Iter(lv, k, i.kind, Not(z3.Select(i.get(t, 'dom'), k)))
    if m in ('end', 'cend'):
        it = Iter(lv, E.S.default_of_sort(ks), i.kind, TRUE)
        it.whole = True
        return it
    if m in ('begin', 'cbegin'):
        # some element of the container (first of the order when it is not empty)
        k = E.fresh('first', ks)
        dom = i.get(t, 'dom')
        E.assume(Implies(i.get(t, 'card') > 0, z3.Select(dom, k)))
        if getattr(i, 'ordered', False) and ks in (z3.IntSort(), z3.RealSort()):
            x = E.fresh('x', ks)
            E.assume(forall([x], Implies(z3.Select(dom, x), k <= x), [z3.Select(dom, x)]))
        it = Iter(lv, k, i.kind, i.get(t, 'card') <= 0)
        it.whole = True
        return it
    if m in ('rbegin', 'crbegin', 'rend', 'crend') and i.kind == 'map' and getattr(i, 'ordered', False) and ks in (z3.IntSort(), z3.RealSort()):
        # read-only walk from the largest key down: a snapshot of the pairs in that order
        sn = getattr(E, 'mapsnap', None)
        if sn is None:
            sn = E.mapsnap = {}
        c = sn.get(t.get_id())
        if c is None or not c[0].eq(t) or c[1].root not in E.st.cells:
            if not m.endswith('rbegin'):
                raise Unsupported('end of an ordered map without its begin')
            enum, idx = E.enumeration(t, i)
            pi = E.S.info[E.pair_sort(i)]
            vi = E.S.info[E.S.vec(elem_sort=E.pair_sort(i))]
            n = i.get(t, 'card')
            data = E.fresh('walk', z3.ArraySort(z3.IntSort(), E.pair_sort(i)))
            kk = E.fresh('k', z3.IntSort())
            key = enum(n - 1 - kk)
            E.fact(forall([kk], Implies(And(kk >= 0, kk < n), z3.Select(data, kk) == pi.make(key, z3.Select(i.get(t, 'val'), key))), [z3.Select(data, kk)]))
            E.fact(n >= 0)
            E.last_walk = (idx, n)
            c = sn[t.get_id()] = (t, E.temp(vi.make(n, data)))
        return Iter(c[1], I0 if m.endswith('rbegin') else i.get(t, 'card'), 'vec')
    if m == 'clear':
        E.write(lv, E.S.default_of_sort(t.sort()))
        return None
    if m == 'erase':
        a = E.ev(args[0])
        if isinstance(a, Iter):
            E.oblige('erase(end)', Not(a.end), 'bounds', e.get('l'))
            map_erase(E, lv, a.idx)
            return None
        return If(map_erase(E, lv, E.coerce_sort(a, ks)), I1, I0)
    if i.kind == 'set':
        if m in ('insert', 'emplace'):
            if len(args) == 2:
                set_union(E, lv, args, e)
                return None
            k = k0()
            was = set_insert(E, lv, k)
            return pseudo_pair(E, Iter(lv, k, 'set'), Not(was))
    else:
        if m in ('operator[]', 'at'):
            k = k0()
            has = z3.Select(i.get(t, 'dom'), k)
            if m == 'at':
                E.oblige('map::at', has, 'bounds', e.get('l'))
                return lv.then(('mapv', k))
            cur = E.read(lv)
            dv = E.S.default_of_sort(i.fields[1][1].range())
            vals = i.get(cur, 'val')
            E.write(lv, i.make(z3.Store(i.get(cur, 'dom'), k, TRUE), z3.Store(vals, k, If(has, z3.Select(vals, k), dv)),
                               If(has, i.get(cur, 'card'), i.get(cur, 'card') + 1)))
            return lv.then(('mapv', k))
        if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if len(args) == 1:
                p = E.ev(args[0])
                f = E.info(p)
                k, v = f.get(p, f.fields[0][0]), f.get(p, f.fields[1][0])
            else:
                k, v = E.ev(args[0]), E.ev(args[1])
            if isinstance(k, Iter) and isinstance(v, Iter) and getattr(k, 'whole', False) and getattr(v, 'whole', False) and k.lv.same(v.lv) and m == 'insert':
                map_union(E, lv, E.read(lv), E.read(k.lv), i)
                return None
            k = E.coerce_sort(k, ks)
            v = E.coerce_sort(v, i.fields[1][1].range())
            cur = E.read(lv)
            has = z3.Select(i.get(cur, 'dom'), k)
            vals = i.get(cur, 'val')
            nv = v if m == 'insert_or_assign' else If(has, z3.Select(vals, k), v)
            E.write(lv, i.make(z3.Store(i.get(cur, 'dom'), k, TRUE), z3.Store(vals, k, nv),
                               If(has, i.get(cur, 'card'), i.get(cur, 'card') + 1)))
            return pseudo_pair(E, Iter(lv, k, 'map'), Not(has))
    raise Unsupported('map/set method %s' % m)


class PPair:
    """pair<iterator,bool>"""
    def __init__(self, first, second):
        self.first, self.second = first, second


def pseudo_pair(E, it, b):
    return PPair(it, b)


# ------------------------------------------------------------------ vectors
def vec_method(E, m, lv, t, i, args, e):
    n = i.get(t, 'len')

    def val(a):
        v = E.ev(a)
        if isinstance(v, (Ptr, Lam)):
            v = E.coerce(v, i.ety)
        return E.coerce_sort(E.coerce(v, i.ety) if i.ety else v, i.elem)
    if m in ('size', 'length'):
        return n
    if m == 'empty':
        return n == 0
    if m in ('operator[]', 'at', 'Get', 'Mutable'):
        k = E.coerce_sort(E.ev(args[0]), z3.IntSort())
        E.bound(lv, k, e)
        r = lv.then(('i', k))
        return Ptr(r) if m == 'Mutable' else r
    if m in ('push_back',):
        append(E, lv, val(args[0]))
        return None
    if m in ('Add',):
        v = val(args[0]) if args else elem_default(E, i)
        k = append(E, lv, v)
        return Ptr(lv.then(('i', k))) if not args else None
    if m == 'emplace_back':
        v = construct(E, i.ety, args, e) if args else elem_default(E, i)
        if isinstance(v, (Ptr, Lam)):
            v = E.coerce(v, i.ety)
        t0 = E.read(lv)
        k = append(E, lv, v)
        return lv.then(('i', k))
    if m == 'pop_back' or m == 'RemoveLast':
        E.oblige('pop_back on empty', n > 0, 'bounds', e.get('l'))
        E.write(lv, i.set(t, 'len', n - 1))
        return None
    if m in ('clear', 'Clear'):
        E.write(lv, i.make(I0, i.get(E.S.default_of_sort(t.sort()), 'data')))
        return None
    if m in ('reserve', 'Reserve', 'shrink_to_fit'):
        return None
    if m == 'resize':
        k = E.coerce_sort(E.ev(args[0]), z3.IntSort())
        E.oblige('non-negative size', k >= 0, 'wrap', e.get('l'))
        v = val(args[1]) if len(args) > 1 else elem_default(E, i)
        E.write(lv, resize(E, t, k, v))
        return None
    if m == 'assign' and len(args) == 2:
        a = E.ev(args[0])
        if isinstance(a, Iter):
            tt, lo, hi = range_of(E, a, E.ev(args[1]))
            E.write(lv, slice_append(E, E.S.default_of_sort(t.sort()), tt, lo, hi))
        else:
            E.write(lv, i.make(E.coerce_sort(a, z3.IntSort()), z3.K(z3.IntSort(), val(args[1]))))
        return None
    if m in ('front',):
        E.oblige('front of empty', n > 0, 'bounds', e.get('l'))
        return lv.then(('i', I0))
    if m == 'back':
        E.oblige('back of empty', n > 0, 'bounds', e.get('l'))
        return lv.then(('i', simp(n - 1)))
    if m in ('begin', 'cbegin'):
        return Iter(lv, I0)
    if m in ('end', 'cend'):
        return Iter(lv, n)
    if m in ('rbegin', 'crbegin'):
        return Iter(lv, I0, rev=True)
    if m in ('rend', 'crend'):
        return Iter(lv, n, rev=True)
    if m in ('data', 'get', 'mutable_data'):
        return Ptr(lv)
    if m == 'insert' and len(args) == 3:
        pos = E.ev(args[0])
        a, b = E.ev(args[1]), E.ev(args[2])
        if isinstance(pos, Iter) and simp(pos.idx).eq(simp(n)) and isinstance(a, z3.ExprRef) and a.sort() == z3.IntSort():
            # insert(end, count, value)
            vi = E.info(t)
            kk = E.fresh('k', z3.IntSort())
            d = E.fresh('filled', vi.get(t, 'data').sort())
            b = E.coerce_sort(b, vi.elem)
            E.oblige('insert-count', a >= 0, 'bounds', e.get('l'))
            E.fact(forall([kk], z3.Select(d, kk) == If(kk < n, z3.Select(vi.get(t, 'data'), kk), b), [z3.Select(d, kk)]))
            E.write(lv, vi.make(n + a, d))
            return None
        if isinstance(pos, Iter) and simp(pos.idx).eq(simp(n)):
            tt, lo, hi = range_of(E, a, b)
            E.write(lv, slice_append(E, t, tt, lo, hi))
            return None
    if m == 'CopyFrom':
        E.write(lv, E.ev(args[0]))
        return None
    if m == 'MergeFrom':
        o = E.ev(args[0])
        E.write(lv, slice_append(E, t, o, I0, E.len(o)))
        return None
    if m == 'swap':
        o = E.lv(args[0]) if not isinstance(E.ev(args[0]), Ptr) else E.ev(args[0]).lv
        tv = E.read(o)
        E.write(o, t)
        E.write(lv, tv)
        return None
    raise Unsupported('vector method %s line %s' % (m, e.get('l')))


# ------------------------------------------------------------------ protobuf
def proto_merge(E, i, a, b):
    """a.MergeFrom(b)"""
    vals = []
    for n, s, ty in i.fields:
        f = i.pf.get(n)
        x, y = i.get(a, n), i.get(b, n)
        if f is None:
            if n.startswith('has_'):
                vals.append(Or(x, y))
            elif n == '__rest':
                vals.append(E.fresh('rest', s))
            else:
                vals.append(y)
        elif f['repeated']:
            vals.append(slice_append(E, x, y, I0, E.len(y)))
        elif f['desc'].get('k') == 'rec' and E.S.info.get(s) and E.S.info[s].kind == 'proto':
            j = E.S.info[s]
            vals.append(E.If(i.get(b, 'has_' + n), proto_merge(E, j, x, y), x))
        elif f['presence']:
            vals.append(E.If(i.get(b, 'has_' + n), y, x))
        else:
            vals.append(E.If(y == E.S.default_of_sort(s), x, y))
    return i.make(*vals)


def proto_method(E, m, lv, t, i, args, e):
    pf = i.pf
    if m in pf and m not in i.idx:
        raise Unsupported('unused proto field %s' % m)
    if m in pf:
        f = pf[m]
        if args:
            k = E.coerce_sort(E.ev(args[0]), z3.IntSort())
            r = lv.then(('f', m))
            E.bound(r, k, e)
            return r.then(('i', k))
        return lv.then(('f', m))
    if m.endswith('_size') and m[:-5] in pf:
        return E.len(i.get(t, m[:-5]))
    if m.startswith('has_') and m[4:] in pf:
        return i.get(t, m)
    if m.startswith('set_') and m[4:] in pf:
        n = m[4:]
        fs = i.fields[i.idx[n]]
        if pf[n]['repeated']:
            k = E.coerce_sort(E.ev(args[0]), z3.IntSort())
            r = lv.then(('f', n))
            E.bound(r, k, e)
            E.write(r.then(('i', k)), E.coerce_sort(E.ev(args[1]), E.S.info[fs[1]].elem))
        else:
            v = E.ev(args[0])
            E.write(lv.then(('f', n)), E.coerce_sort(v, fs[1]))
        return None
    if m.startswith('mutable_') and m[8:] in pf:
        n = m[8:]
        r = lv.then(('f', n))
        if args:
            k = E.coerce_sort(E.ev(args[0]), z3.IntSort())
            E.bound(r, k, e)
            return Ptr(r.then(('i', k)))
        if not pf[n]['repeated'] and 'has_' + n in i.idx:
            cur = i.get(t, n)
            # an unset message field starts from its default
            has = i.get(t, 'has_' + n)
            if not z3.is_true(has):
                E.write(r, E.If(has, cur, E.S.default_of_sort(cur.sort())))
        return Ptr(r)
    if m.startswith('add_') and m[4:] in pf:
        n = m[4:]
        r = lv.then(('f', n))
        vi = E.S.info[i.fields[i.idx[n]][1]]
        if args:
            append(E, r, E.coerce_sort(E.ev(args[0]), vi.elem))
            return None
        k = append(E, r, E.S.default_of_sort(vi.elem))
        return Ptr(r.then(('i', k)))
    if m.startswith('clear_') and m[6:] in pf:
        n = m[6:]
        if pf[n]['repeated']:
            E.write(lv.then(('f', n)), E.S.default_of_sort(i.fields[i.idx[n]][1]))
        else:
            t2 = i.set(t, n, E.pdefault(i, n))
            if 'has_' + n in i.idx:
                t2 = i.set(t2, 'has_' + n, FALSE)
            E.write(lv, t2)
        return None
    if m.endswith('_case'):
        oo = m[:-5]
        r = I0
        for g, f in pf.items():
            if f.get('oneof') == oo and 'has_' + g in i.idx:
                r = If(i.get(t, 'has_' + g), z3.IntVal(f['num']), r)
        return r
    if m == 'Clear':
        E.write(lv, E.S.default_of_sort(t.sort()))
        return None
    if m == 'CopyFrom':
        E.write(lv, E.ev(args[0]))
        return None
    if m == 'MergeFrom':
        E.write(lv, proto_merge(E, i, t, E.ev(args[0])))
        return None
    if m in ('DebugString', 'ShortDebugString', 'SerializeAsString'):
        return E.fresh('debugstring', STR)
    if m == 'ByteSizeLong' or m == 'IsInitialized':
        return E.fresh(m, E.sort(e['t']))
    raise Unsupported('proto method %s::%s line %s' % (i.msg, m, e.get('l')))


# ------------------------------------------------------------------ contracts
class Contract:
    """Contract of one repository function.

    requires(A) -> [(name, formula)]      over argument values (A['this'], A[param], A[index])
    ensures(A, r, post) -> [(name, formula)]
    modifies: parameter names (or 'this') whose pointee may change
    """
    def __init__(self, q, requires=None, ensures=None, modifies=(), loops=None, nparams=None, sig=None, args=None,
                 opts=None, nullable=(), symbolic_null=(), name=None, result=None, eng_requires=None, bind=None,
                 ghost=None, callees=None, trusted=None):
        self.q, self.requires, self.ensures, self.modifies = q, requires, ensures, tuple(modifies)
        self.loops, self.nparams, self.sig, self.args = loops, nparams, sig, args
        self.opts, self.nullable, self.symbolic_null, self.name = opts, nullable, symbolic_null, name
        self.result, self.bind, self.ghost, self.callees = result, bind, ghost, callees
        self.trusted = trusted

    def apply(self, E, fn, this, args_e, e):
        A = {}
        if this is not None:
            A['this'] = E.read(this)
            A['this_lv'] = this
        lvs = {'this': this}
        pts = fn['params'] if fn else []
        names = self.args or [p['n'] or 'arg%d' % j for j, p in enumerate(pts)]
        for j, a in enumerate(args_e):
            nm = names[j] if j < len(names) else 'arg%d' % j
            pt = pts[j]['t'] if j < len(pts) else e['pt'][j]
            v = E.arg(pt, a)
            if isinstance(v, Ref):
                lvs[nm] = v.lv
                v = E.read(v.lv)
            elif isinstance(v, Ptr):
                A[nm + '_null'] = v.null
                if v.lv is not None:
                    if nm in (self.opts or {}).get('arrays', ()) and v.lv.steps and v.lv.steps[-1][0] == 'i':
                        # &a[0] for an array parameter
                        if not simp(v.lv.steps[-1][1]).eq(I0):
                            raise Unsupported('pointer into the middle of an array')
                        v = Ptr(LV(v.lv.root, v.lv.steps[:-1]), v.null)
                    lvs[nm] = v.lv
                    v = E.read(v.lv)
                else:
                    v = E.S.default_of_sort(E.sort(E.S.d(pt)['t']))
            elif isinstance(v, z3.ExprRef) and E.S.info.get(v.sort()) and E.info(v).kind == 'opt' and E.S.d(pt)['k'] == 'ptr':
                A[nm + '_null'] = Not(E.get(v, 'has'))
                v = E.get(v, 'val')
            if isinstance(v, z3.ExprRef) and E.S.d(pt)['k'] not in ('ptr', 'ref'):
                v = E.coerce(v, pt)
            A[nm] = A[j] = v
        if self.requires:
            for nm, f in norm(self.requires(A)):
                E.oblige('requires:%s:%s' % (self.q.split('::')[-1], nm), f, 'requires', e.get('l'))
                E.assume(f)
        post = {}
        for m in self.modifies:
            lv = lvs.get(m)
            if lv is None:
                continue
            old = E.read(lv)
            pj = names.index(m) if m in names else -1
            inner = E.S.d(pts[pj]['t'])['t'] if 0 <= pj < len(pts) and E.S.d(pts[pj]['t'])['k'] in ('ptr', 'ref') else None
            if inner is not None and E.S.d(inner)['k'] == 'ptr':
                # a pointer out-parameter: seen in the contract as an optional pointee
                nv = E.fresh('post_' + m, E.sort(inner))
                E.write(lv, Ptr(E.temp(E.get(nv, 'val')), Not(E.get(nv, 'has'))))
                post[m] = nv
                continue
            nv = E.fresh('post_' + m, old.sort())
            for g in E.nonneg_terms(nv):
                E.assume(g)
            E.write(lv, nv)
            post[m] = nv
        for nm in A:
            post.setdefault(nm, A[nm])
        r = None
        rt = fn['rt'] if fn else e['t']
        if self.result is not None:
            r = self.result(E, A)
        elif E.kd(rt)['k'] != 'void':
            s = E.sort(rt)
            r = E.fresh('ret_' + self.q.split('::')[-1], s)
            for g in E.nonneg_terms(r):
                E.assume(g)
            if E.kd(rt)['k'] == 'int' and not E.kd(rt).get('s', True):
                E.assume(r >= 0)
        if self.ensures:
            for nm, f in norm(self.ensures(A, r, post)):
                E.assume(f)
        if self.ghost:
            self.ghost(E, A, r, post)
        return r


def norm(l):
    out = []
    for j, x in enumerate(l or []):
        out.append(x if isinstance(x, tuple) else (str(j), x))
    return out


def user_contract(E, q, e, this, args_e, fn):
    c = E.callees[q]
    if isinstance(c, Contract):
        E.contract_uses.add(q)
        return c.apply(E, fn, this, args_e, e)
    return c(E, e, this, args_e)


# ------------------------------------------------------------------ calls
CMP = {'EQ': lambda a, b: a == b, 'NE': lambda a, b: Not(a == b), 'LT': lambda a, b: a < b, 'LE': lambda a, b: a <= b,
       'GT': lambda a, b: a > b, 'GE': lambda a, b: a >= b}


def unify(E, a, b):
    if a.sort() != b.sort():
        if z3.RealSort() in (a.sort(), b.sort()):
            return real(E, a), real(E, b)
        return E.coerce_sort(a, z3.IntSort()), E.coerce_sort(b, z3.IntSort())
    return a, b


def call(E, e):
    k = e['k']
    if k == 'mcall':
        return mcall(E, e)
    if k == 'opcall':
        return opcall(E, e)
    q = e.get('q')
    args = e['args']
    if q is None:
        f = E.ev(e['f'])
        if isinstance(f, Lam):
            return E.call_lambda(f, lam_args(E, f, args))
        if isinstance(f, Opq) and f.tag == 'fn':
            e2 = dict(e)
            for kk in ('q', 'key', 'pt'):
                e2[kk] = f.data[kk]
            return call(E, e2)
        raise Unsupported('indirect call line %s' % e.get('l'))
    key = e['key']
    fn = E.P.fns.get(key)
    if q in E.callees or key in E.callees:
        return user_contract(E, q if q in E.callees else key, e, None, args, fn)
    base = q.split('::')[-1]
    if q in ('std::move', 'std::forward'):
        try:
            return E.lv(args[0])
        except NotLV2 as x:
            return x.v
        except NotLV:
            return E.ev(args[0])
    if q == '__builtin_expect':
        return E.ev(args[0])
    if q.startswith('google::Check_'):
        a, b = E.ev(args[0]), E.ev(args[1])
        op = base[6:8]
        if isinstance(a, (Ptr, Iter)) or isinstance(b, (Ptr, Iter)):
            c = E.binop('==', a, b, e)
            c = c if op == 'EQ' else Not(c)
        else:
            a, b = unify(E, a, b)
            c = CMP[op](a, b)
        return Opq('checkop', Not(c))
    if q == 'google::GetReferenceableValue':
        return E.ev(args[0])
    if base == 'CheckNotNull' or base == 'CheckNotNullCommon':
        return E.ev(args[-1])
    if fn is None and (q.startswith('std::') or '::' not in q) and base in MATH:
        return math(E, base, [E.ev(a) for a in args])
    if q in ('std::min', 'std::max'):
        if len(args) == 1 or not all(isinstance(E.kd(a.get('t', '')), dict) for a in args):
            v = E.ev(args[0])
            n = simp(E.len(v)).as_long()
            r = E.at(v, 0)
            for j in range(1, n):
                x = E.at(v, j)
                r = fmin(E, r, x) if base == 'min' else fmax(E, r, x)
            return r
        a, b = E.ev(args[0]), E.ev(args[1])
        if len(args) == 3:
            raise Unsupported('std::%s with comparator' % base)
        if a.sort() == b.sort() and a.sort() not in (z3.IntSort(), z3.RealSort()):
            raise Unsupported('std::%s on %s' % (base, a.sort()))
        a, b = unify(E, a, b)
        return fmin(E, a, b) if base == 'min' else fmax(E, a, b)
    if q in ('std::make_unique', 'absl::make_unique', 'std::make_shared'):
        ty = e['targs'][0]
        ids = E.opts.get('class_ids') or {}
        if ty in ids and not args:
            return Ptr(E.temp(E.S.info[E.S.sort(ty)].make(z3.IntVal(ids[ty]))))     # the ghost identity of an object is its class
        v = construct(E, ty, args, e)
        return Ptr(E.temp(v))
    if q in ('std::make_pair', 'std::make_tuple', 'std::tie'):
        s = E.sort(e['t'])
        i = E.S.info[s]
        return i.make(*[E.coerce_sort(E.ev(a), f[1]) for a, f in zip(args, i.fields)])
    if q == 'std::get':
        t = E.lv_or_temp(args[0])
        v = E.read(t)
        i = E.info(v)
        ix = e['targs'][0]
        return t.then(('f', i.fields[int(ix)][0]))
    if q == 'std::swap':
        a, b = E.lv(args[0]), E.lv(args[1])
        x, y = E.read(a), E.read(b)
        E.write(a, y)
        E.write(b, x)
        return None
    if base in ('StrCat', 'to_string') and E.opts.get('strings'):
        return strcat(E, [E.ev(a) for a in args])
    if base in ('StrCat', 'StrFormat', 'Substitute', 'StrJoin', 'to_string'):
        for a in args:
            try:
                E.ev(a)
            except Unsupported:
                pass
        used('string formatting is opaque')
        return E.fresh('str', STR)
    if base in ('StrAppend', 'StrAppendFormat', 'StrAppendFormat'):
        v = E.ev(args[0])
        if isinstance(v, Ptr) and base == 'StrAppend' and E.opts.get('strings'):
            E.write(v.lv, strcat(E, [E.read(v.lv)] + [E.ev(a) for a in args[1:]]))
            return None
        if isinstance(v, Ptr):
            E.write(v.lv, E.fresh('str', STR))
        return None
    if q.startswith('absl::') and base.endswith('Error'):
        i = E.S.info[E.sort(e['t'])]
        for a in args:
            E.ev(a)
        return i.make(FALSE)
    if q == 'absl::OkStatus':
        return E.S.info[E.sort(e['t'])].make(TRUE)
    if q == 'std::sort' or q == 'std::stable_sort':
        return sort_model(E, args, e)
    if q == 'std::iota':
        a, b = E.ev(args[0]), E.ev(args[1])
        t = E.read(a.lv)
        i = E.info(t)
        v0 = E.ev(args[2])
        d = E.fresh('iota', i.get(t, 'data').sort())
        kk = E.fresh('k', z3.IntSort())
        E.assume(forall([kk], z3.Select(d, kk) == If(And(kk >= a.idx, kk < b.idx), E.coerce_sort(v0 + (kk - a.idx), i.elem), z3.Select(i.get(t, 'data'), kk)), [z3.Select(d, kk)]))
        E.write(a.lv, i.set(t, 'data', d))
        return None
    if q in ('std::max_element', 'std::min_element') and len(args) == 2:
        a, b = E.ev(args[0]), E.ev(args[1])
        t = E.read(a.lv)
        r = E.fresh('extreme', z3.IntSort())
        kk = E.fresh('k', z3.IntSort())
        E.assume(Implies(a.idx < b.idx, And(r >= a.idx, r < b.idx)))
        E.assume(Implies(Not(a.idx < b.idx), r == b.idx))
        x, y = E.at(t, kk), E.at(t, r)
        le, lt = (x <= y, x < y) if base == 'max_element' else (x >= y, x > y)
        E.assume(forall([kk], Implies(And(kk >= a.idx, kk < b.idx), And(le, Implies(kk < r, lt))), [x]))
        return Iter(a.lv, r)
    if q == 'std::find':
        a, b, v = E.ev(args[0]), E.ev(args[1]), E.ev(args[2])
        if a.kind != 'vec':
            raise Unsupported('std::find on a tree')
        t = E.read(a.lv)
        r = E.fresh('found', z3.IntSort())
        kk = E.fresh('k', z3.IntSort())
        v = E.coerce_sort(v, E.info(t).elem)
        E.assume(And(r >= a.idx, Or(r <= b.idx, r == a.idx)))
        E.assume(Implies(a.idx <= b.idx, r <= b.idx))
        E.assume(Implies(r < b.idx, E.at(t, r) == v))
        E.assume(forall([kk], Implies(And(kk >= a.idx, kk < r), Not(E.at(t, kk) == v)), [E.at(t, kk)]))
        return Iter(a.lv, r)
    if q == 'std::copy':
        a, b, o = E.ev(args[0]), E.ev(args[1]), E.ev(args[2])
        t, lo, hi = range_of(E, a, b)
        if isinstance(o, Opq) and o.tag == 'back_inserter':
            E.write(o.data, slice_append(E, E.read(o.data), t, lo, hi))
            return None
        raise Unsupported('std::copy')
    if q == 'std::back_inserter':
        return Opq('back_inserter', E.lv(args[0]))
    if q == 'std::distance':
        a, b = E.ev(args[0]), E.ev(args[1])
        return b.idx - a.idx
    if q in ('std::next', 'std::prev'):
        a = E.ev(args[0])
        n = E.ev(args[1]) if len(args) > 1 else I1
        if not isinstance(a, Iter) or a.kind != 'vec':
            raise Unsupported('std::next')
        return Iter(a.lv, a.idx + n if q == 'std::next' else a.idx - n, a.kind, a.end, a.rev)
    if q == 'std::fill':
        a, b, v = E.ev(args[0]), E.ev(args[1]), E.ev(args[2])
        t = E.read(a.lv)
        i = E.info(t)
        d = E.fresh('fill', i.get(t, 'data').sort())
        kk = E.fresh('k', z3.IntSort())
        E.assume(forall([kk], z3.Select(d, kk) == If(And(kk >= a.idx, kk < b.idx), E.coerce_sort(v, i.elem), z3.Select(i.get(t, 'data'), kk)), [z3.Select(d, kk)]))
        E.write(a.lv, i.set(t, 'data', d))
        return None
    if base == 'memset':
        p = E.ev(args[0])
        v = simp(E.ev(args[1]))
        if isinstance(p, Ptr) and z3.is_int_value(v) and v.as_long() == 0:
            t = E.read(p.lv)
            E.write(p.lv, E.info(t).set(t, 'data', z3.K(z3.IntSort(), E.S.default_of_sort(E.info(t).elem))))
            used('memset over the whole array')
            return None
    if q == 'std::begin' or q == 'std::end':
        lv = E.lv_or_temp(args[0])
        t = E.read(lv)
        return Iter(lv, I0 if base == 'begin' else E.len(t))
    if q.endswith('_Name') and fn is None:
        en = E.P.enum_names.get(q[:-5]) or next((v for k, v in E.P.enum_names.items() if k.replace('_', '::') == q[:-5].replace('_', '::')), None)
        if en and E.opts.get('strings'):
            return enum_name(E, en, E.ev(args[0]))
        return E.fresh('name', STR)
    if fn is not None:
        vals = E.args_for(fn, args)
        r = E.call_fn(fn, None, vals, e.get('l'))
        return r
    raise Unsupported('call of %s line %s' % (key, e.get('l')))


def sort_model(E, args, e):
    a, b = E.ev(args[0]), E.ev(args[1])
    if not isinstance(a, Iter) or a.kind != 'vec' or a.rev:
        raise Unsupported('std::sort range')
    t = E.read(a.lv)
    i = E.info(t)
    es = i.elem
    d0 = i.get(t, 'data')
    d = E.fresh('sorted', d0.sort())
    E.n += 1
    p = z3.Function('perm!%d' % E.n, z3.IntSort(), z3.IntSort())
    pi = z3.Function('permi!%d' % E.n, z3.IntSort(), z3.IntSort())
    k, l = E.fresh('k', z3.IntSort()), E.fresh('l', z3.IntSort())
    inr = And(k >= a.idx, k < b.idx)
    E.assume(forall([k], Implies(inr, And(p(k) >= a.idx, p(k) < b.idx, pi(p(k)) == k, z3.Select(d, k) == z3.Select(d0, p(k)))), [z3.Select(d, k)]))
    E.assume(forall([k], Implies(inr, And(p(k) >= a.idx, p(k) < b.idx, pi(p(k)) == k)), [p(k)]))
    E.assume(forall([k], Implies(inr, And(pi(k) >= a.idx, pi(k) < b.idx, p(pi(k)) == k)), [pi(k)]))
    E.assume(forall([k], Implies(inr, And(pi(k) >= a.idx, pi(k) < b.idx, p(pi(k)) == k)), [z3.Select(d0, k)]))
    E.assume(forall([k], Implies(Not(inr), z3.Select(d, k) == z3.Select(d0, k)), [z3.Select(d, k)]))
    x, y = E.fresh('x', es), E.fresh('y', es)
    if len(args) > 2:
        lam = E.ev(args[2])
        if not isinstance(lam, Lam):
            raise Unsupported('sort comparator')
        E.quiet += 1
        nf = len(E.facts)
        try:
            ins = [E.temp(x), E.temp(y)]
            less = E.call_lambda(lam, [Ref(z) if E.S.d(pp['t'])['k'] == 'ref' else v for z, v, pp in zip(ins, (x, y), lam.node['params'])])
        finally:
            E.quiet -= 1
        del E.facts[nf:]
    else:
        less = x < y
    lt = z3.substitute(less, (x, z3.Select(d, l)), (y, z3.Select(d, k)))
    E.assume(forall([k, l], Implies(And(k >= a.idx, k < l, l < b.idx), Not(lt)), [z3.MultiPattern(z3.Select(d, k), z3.Select(d, l))]))
    E.write(a.lv, i.set(t, 'data', d))
    E.last_perm = (p, pi)
    return None


def lam_args(E, lam, args):
    return [E.arg(p['t'], a) for p, a in zip(lam.node['params'], args)]


def mcall(E, e):
    m = e.get('m')
    q = e.get('q', '')
    key = e.get('key')
    args = e['args']
    fn = E.P.fns.get(key)
    rec = e.get('rec')
    d = E.kd(rec) if rec else {}
    n = d.get('n', '')
    if q in E.callees or key in E.callees:
        lv = None if e.get('static') else obj(E, e)
        return user_contract(E, q if q in E.callees else key, e, lv, args, fn)
    if m == 'operator bool' and 'CheckOpString' in n:
        v = E.ev(e['b'])
        return v.data if isinstance(v, Opq) else v
    if n.startswith('google::LogMessage') or n.startswith('std::basic_ostream'):
        if m == 'stream':
            E.ev(e['b'])
        return Opq('stream')
    if fn is not None and (not e.get('virtual') or e.get('qualified') or E.P.leaf(rec)):
        lv = None if e.get('static') else obj(E, e)
        vals = E.args_for(fn, args)
        if not isinstance(lv, (LV, type(None))):
            raise Unsupported('member call on %r' % lv)
        return E.call_fn(fn, lv, vals, e.get('l'))
    if n == 'std::unique_ptr' and m == 'get':
        blv, v = E.lvv(e['b'])
        if isinstance(v, Ptr):
            return v
        i = E.info(v)
        if i.kind == 'vec':
            return Ptr(blv if blv is not None else E.temp(v))
        return Ptr(blv.then(('opt', None)) if blv is not None else E.temp(i.get(v, 'val')), Not(i.get(v, 'has')))
    b = None
    lv = obj(E, e)
    if not isinstance(lv, LV):
        v = lv
        if isinstance(v, PPair):
            raise Unsupported('pair method')
        if isinstance(v, Iter) and m == 'base':
            raise Unsupported('iterator base')
        if isinstance(v, Opq):
            return Opq('opaque')
        raise Unsupported('method %s on %r line %s' % (m, v, e.get('l')))
    t = E.read(lv)
    if isinstance(t, Ptr) and n == 'std::unique_ptr':
        if m in ('get', 'release'):
            return t
    if not isinstance(t, z3.ExprRef):
        raise Unsupported('method %s on %r' % (m, t))
    if n.startswith('std::atomic') or n.startswith('std::__atomic'):
        if m in ('load', 'operator int') or m.startswith('operator '):
            return t
        if m == 'store':
            E.write(lv, E.coerce_sort(E.ev(args[0]), t.sort()))
            return None
    i = E.S.info.get(t.sort())
    if n == 'std::_Bit_reference':
        if m == 'operator bool':
            return t
    if i is None:
        if t.sort() == STR:
            return str_method(E, m, lv, t, args, e)
        raise Unsupported('method %s::%s line %s' % (n, m, e.get('l')))
    if i.kind == 'vec':
        return vec_method(E, m, lv, t, i, args, e)
    if i.kind in ('map', 'set'):
        return map_method(E, m, lv, t, i, args, e)
    if i.kind == 'proto':
        return proto_method(E, m, lv, t, i, args, e)
    if i.kind == 'opt':
        if m in ('has_value', 'operator bool'):
            return i.get(t, 'has')
        if m == 'value':
            E.oblige('optional::value', i.get(t, 'has'), 'null', e.get('l'))
            return lv.then(('opt', None))
        if m == 'value_or':
            return E.If(i.get(t, 'has'), i.get(t, 'val'), E.coerce_sort(E.ev(args[0]), i.fields[1][1]))
        if m == 'reset' and not args:
            E.write(lv, E.S.default_of_sort(t.sort()))
            return None
        if m == 'emplace':
            v = construct(E, i.ety, args, e)
            E.write(lv, i.make(TRUE, E.coerce_sort(v, i.fields[1][1])))
            return None
    if i.kind in ('status', 'statusor'):
        if m == 'ok':
            return i.get(t, 'ok')
        if m == 'status':
            return E.S.info[E.sort(e['t'])].make(i.get(t, 'ok'))
        if m == 'value':
            E.oblige('StatusOr::value', i.get(t, 'ok'), 'null', e.get('l'))
            return lv.then(('f', 'val'))
        if m in ('message', 'ToString'):
            return E.fresh('msg', STR)
    if i.kind == 'fn' and m == 'operator bool':
        return i.get(t, 'set')
    raise Unsupported('method %s::%s line %s' % (n, m, e.get('l')))


CAT = z3.Function('cat', STR, STR, STR)
ITEXT = z3.Function('decimal', z3.IntSort(), STR)


def enum_name(E, values, x):
    r = E.S.lit('')
    for n, v in values.items():
        r = If(x == v, E.S.lit(n), r)
    return r


def strcat(E, parts):
    """the concatenation of the parts in a canonical form: literals merged, choices outside"""
    rev = {v.get_id(): k for k, v in E.S.strs.items()}

    def leaves(t):
        """[(conditions, [atoms])] with atoms python strings or terms"""
        if t.sort() == z3.IntSort():
            t = simp(t)
            return [((), [str(t.as_long()) if z3.is_int_value(t) else ITEXT(t)])]
        if t.sort() != STR:
            return [((), [E.func('text', t.sort(), STR)(t)])]
        if t.get_id() in rev:
            return [((), [rev[t.get_id()]])]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            return [((c,) + k, v) for k, v in leaves(a)] + [((Not(c),) + k, v) for k, v in leaves(b)]
        if z3.is_app(t) and t.decl().eq(CAT):
            return join(leaves(t.arg(0)), leaves(t.arg(1)))
        return [((), [t])]

    def join(p, q):
        return [(k + k2, v + v2) for k, v in p for k2, v2 in q]
    out = [((), [])]
    for x in parts:
        out = join(out, leaves(x))
        if len(out) > 400:
            raise Unsupported('string with too many cases')

    def build(atoms):
        m = []
        for a in atoms:
            if isinstance(a, str) and m and isinstance(m[-1], str):
                m[-1] += a
            elif not isinstance(a, str) or a != '':
                m.append(a)
        if not m:
            return E.S.lit('')
        r = None
        for a in reversed(m):
            a = E.S.lit(a) if isinstance(a, str) else a
            r = a if r is None else CAT(a, r)
        return r
    r = None
    for k, v in reversed(out):
        b = build(v)
        r = b if r is None else If(And(*k) if k else TRUE, b, r)
    return r


def str_method(E, m, lv, t, args, e):
    if m == 'empty':
        return t == E.S.lit('')
    if m in ('c_str', 'data', 'str') or m.startswith('operator '):
        return t
    if m in ('size', 'length'):
        r = E.func('strlen', STR, z3.IntSort())(t)
        E.axiom(r >= 0)
        return r
    if m == 'clear':
        E.write(lv, E.S.lit(''))
        return None
    if m in ('append', 'operator+=') and E.opts.get('strings'):
        E.write(lv, strcat(E, [t, E.ev(args[0])]))
        return lv
    if m == 'append':
        E.ev(args[0])
        E.write(lv, E.fresh('str', STR))
        return None
    if m == 'substr' or m == 'find':
        used('string %s opaque' % m)
        return E.fresh('str', E.sort(e['t']))
    raise Unsupported('string method ' + m)


def opcall(E, e):
    op = e['op']
    q = e.get('q', '')
    key = e.get('key')
    args = e['args']
    fn = E.P.fns.get(key)
    rec = e.get('rec')
    d = E.kd(rec) if rec else {}
    n = d.get('n', '')
    if q in E.callees or key in E.callees:
        qq = q if q in E.callees else key
        if rec:
            return user_contract(E, qq, e, E.lv_or_temp(args[0]), args[1:], fn)
        return user_contract(E, qq, e, None, args, fn)
    if op == '<<' and (q.startswith('std::') or q.startswith('google::') or (fn is not None and 'ostream' in e['t'])):
        E.ev(args[0])
        # operands of a log statement are pure
        return Opq('stream')
    if q.endswith('LogMessageVoidify::operator&'):
        E.ev(args[0]) if args[0]['k'] != 'ctor' else None
        E.ev(args[1])
        return None
    if fn is not None:
        if rec and not e.get('static'):
            lv = E.lv_or_temp(args[0])
            if not isinstance(lv, LV):
                if isinstance(lv, Lam):
                    return E.call_lambda(lv, lam_args(E, lv, args[1:]))
                raise Unsupported('operator on %r' % lv)
            return E.call_fn(fn, lv, E.args_for(fn, args[1:]), e.get('l'))
        return E.call_fn(fn, None, E.args_for(fn, args), e.get('l'))
    if op == '()':
        f = E.ev(args[0])
        if isinstance(f, Lam):
            return E.call_lambda(f, lam_args(E, f, args[1:]))
        if isinstance(f, z3.ExprRef):
            i = E.info(f)
            if i.kind == 'fn':
                E.oblige('call of empty std::function', i.get(f, 'set'), 'null', e.get('l'))
                vals = [E.ev(a) for a in args[1:]]
                s = E.sort(e['t'])
                g = E.func('apply_fn', OPQ, *([v.sort() for v in vals] + [s]))
                return g(i.get(f, 'id'), *vals)
        if isinstance(f, Opq) and f.tag == 'fn':
            e2 = {'k': 'call', 't': e['t'], 'l': e.get('l'), 'q': f.data['q'], 'key': f.data['key'], 'pt': f.data['pt'], 'args': args[1:]}
            return call(E, e2)
        raise Unsupported('operator() line %s' % e.get('l'))
    if op == '=':
        lv = E.lv(args[0])
        cur = E.read(lv)
        v = E.ev(args[1], want=args[0].get('t'))
        if isinstance(v, LV):
            v = E.read(v)
        if isinstance(v, Opq) and 'nullopt' in v.tag:
            v = E.S.default_of_sort(cur.sort())
        if isinstance(v, Ptr):
            if isinstance(cur, z3.ExprRef):
                v = E.coerce(v, args[0]['t'])
        if isinstance(v, Lam):
            v = E.coerce(v, args[0]['t'])
        if isinstance(v, z3.ExprRef) and isinstance(cur, z3.ExprRef):
            v = E.coerce_sort(v, cur.sort())
        E.write(lv, v)
        return lv
    a = None
    if op == '[]':
        lv = E.lv_or_temp(args[0])
        if isinstance(lv, Iter):
            return E.iter_lv(Iter(lv.lv, lv.idx + E.ev(args[1]), lv.kind, lv.end, lv.rev), e)
        t = E.read(lv)
        if isinstance(t, Ptr):
            lv = E.deref(t, e)
            t = E.read(lv)
        i = E.info(t)
        if i.kind == 'map':
            return map_method(E, 'operator[]', lv, t, i, args[1:], e)
        return vec_method(E, 'operator[]', lv, t, i, args[1:], e)
    if op in ('*', '->') and len(args) == 1:
        alv, v = E.lvv(args[0])
        if isinstance(v, Iter):
            r = E.iter_lv(v, e)
            return Ptr(r) if op == '->' else r
        if isinstance(v, Ptr):
            return v if op == '->' else E.deref(v, e)
        i = E.info(v)
        if i.kind == 'opt':
            E.oblige('optional dereference', i.get(v, 'has'), 'null', e.get('l'))
            r = alv.then(('opt', None)) if alv is not None else E.temp(i.get(v, 'val'))
            return Ptr(r) if op == '->' else r
        if i.kind == 'statusor':
            E.oblige('StatusOr dereference', i.get(v, 'ok'), 'null', e.get('l'))
            r = alv.then(('f', 'val')) if alv is not None else E.temp(i.get(v, 'val'))
            return Ptr(r) if op == '->' else r
        raise Unsupported('operator%s line %s' % (op, e.get('l')))
    if op in ('++', '--'):
        lv = E.lv(args[0])
        t = E.read(lv)
        if isinstance(t, Iter):
            if t.kind != 'vec':
                raise Unsupported('tree iterator increment')
            dlt = I1 if op == '++' else z3.IntVal(-1)
            E.write(lv, Iter(t.lv, simp(t.idx + dlt), t.kind, t.end, t.rev))
            return E.read(lv) if len(args) == 1 else t
        v = t + (1 if op == '++' else -1)
        E.write(lv, v)
        return v if len(args) == 1 else t
    if op in ('+=', '-='):
        lv = E.lv(args[0])
        t = E.read(lv)
        v = E.ev(args[1])
        if isinstance(t, Iter):
            E.write(lv, Iter(t.lv, t.idx + v if op == '+=' else t.idx - v, t.kind, t.end, t.rev))
            return lv
        if t.sort() == STR:
            E.write(lv, E.fresh('str', STR))
            return lv
        E.write(lv, t + v if op == '+=' else t - v)
        return lv
    x, y = E.ev(args[0]), E.ev(args[1]) if len(args) > 1 else None
    if isinstance(x, (Ptr, Iter)) or isinstance(y, (Ptr, Iter)):
        return E.binop(op, x, y, e)
    if isinstance(x, Opq) or isinstance(y, Opq):
        if isinstance(y, Opq) and 'nullopt' in y.tag and op in ('==', '!='):
            r = E.get(x, 'has')
            return Not(r) if op == '==' else r
        raise Unsupported('operator%s on opaque line %s' % (op, e.get('l')))
    if op in ('==', '!='):
        ix = E.S.info.get(x.sort())
        if ix is not None and ix.kind == 'vec' and x.sort() == y.sort():
            kk = E.fresh('k', z3.IntSort())
            r = And(E.len(x) == E.len(y), forall([kk], Implies(And(kk >= 0, kk < E.len(x)), E.at(x, kk) == E.at(y, kk))))
            return r if op == '==' else Not(r)
        if ix is not None and ix.kind == 'set' and x.sort() == y.sort():
            r = ix.get(x, 'dom') == ix.get(y, 'dom')
            return r if op == '==' else Not(r)
        if x.sort() == y.sort():
            return x == y if op == '==' else Not(x == y)
    if op == '+' and STR in (x.sort(), y.sort() if y is not None else None) and E.opts.get('strings'):
        return strcat(E, [x, y])
    if op == '+' and STR in (x.sort(), y.sort() if y is not None else None):
        return E.fresh('str', STR)
    if x.sort() in (z3.IntSort(), z3.RealSort(), z3.BoolSort()):
        return E.binop(op, x, y, e)
    if op == '<' and x.sort() == y.sort():
        i = E.info(x)
        if i.kind == 'rec':          # pair/tuple: lexicographic
            r = FALSE
            for nme, _, _ in reversed(i.fields):
                u, v = i.get(x, nme), i.get(y, nme)
                r = Or(u < v, And(u == v, r))
            return r
    raise Unsupported('operator%s on %s line %s' % (op, x.sort(), e.get('l')))

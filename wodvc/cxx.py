"""Contract-based VC generator over the extracted C++ IR.

Symbolic execution with state merging; loops are cut at invariants, calls go
through contracts, models of the standard library / protobuf accessors, or are
inlined from their real body.  Every obligation is recorded as
(hypotheses, goal) and discharged elsewhere (solve.py).
"""
import re
import z3
from .cxxsorts import Sorts, Unsupported, STR, OPQ

I0, I1 = z3.IntVal(0), z3.IntVal(1)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def simp(t):
    return z3.simplify(t)


def is_true(t):
    return z3.is_true(simp(t)) if not z3.is_true(t) else True


def is_false(t):
    return z3.is_false(simp(t)) if not z3.is_false(t) else True


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class Unmergeable(Exception):
    pass


class BindError(Exception):
    pass


class Dead(Exception):
    """the current path aborted inside an expression"""


class LV:
    __slots__ = ('root', 'steps')

    def __init__(self, root, steps=()):
        self.root, self.steps = root, tuple(steps)

    def then(self, *s):
        return LV(self.root, self.steps + s)

    def same(self, o):
        if not isinstance(o, LV) or self.root != o.root or len(self.steps) != len(o.steps):
            return False
        for a, b in zip(self.steps, o.steps):
            if a[0] != b[0]:
                return False
            x, y = a[1], b[1]
            if isinstance(x, z3.ExprRef):
                if not (isinstance(y, z3.ExprRef) and x.eq(y)):
                    return False
            elif x != y:
                return False
        return True


class Ref:
    """binding of a C++ reference variable"""
    def __init__(self, lv):
        self.lv = lv


class Ptr:
    def __init__(self, lv, null=FALSE):
        self.lv, self.null = lv, null


_QUANT = {}


def has_quantifier(f):
    """whether a formula contains a quantifier anywhere"""
    i = f.get_id()
    if i in _QUANT and _QUANT[i][0].eq(f):
        return _QUANT[i][1]
    r = z3.is_quantifier(f) or (z3.is_bool(f) and any(has_quantifier(c) for c in f.children() if z3.is_bool(c)))
    _QUANT[i] = (f, r)
    return r


class Iter:
    """iterator: container lvalue + index (vec), or key (map/set)"""
    def __init__(self, lv, idx, kind='vec', end=FALSE, rev=False):
        self.lv, self.idx, self.kind, self.end, self.rev = lv, idx, kind, end, rev


class Lam:
    def __init__(self, node, vars, this):
        self.node, self.vars, self.this = node, vars, this


class Opq:
    def __init__(self, tag='opq', data=None):
        self.tag, self.data = tag, data


class State:
    def __init__(self, cells=None, path=()):
        self.cells = dict(cells or {})
        self.path = tuple(path)
        self.dead = False

    def copy(self):
        s = State(self.cells, self.path)
        s.dead = self.dead
        return s

    def add(self, c):
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.dead = True
        self.path = self.path + (c,)

    def pc(self):
        return And(*self.path)


class Frame:
    count = 0

    def __init__(self, fn=None, this=None, vars=None, name=''):
        Frame.count += 1
        self.uid = Frame.count
        self.fn, self.this = fn, this
        self.vars = vars if vars is not None else {}
        self.names = {}
        self.outer = {}
        self.returns = []
        self.base = 0
        self.rt = None
        self.name = name


class Ob:
    def __init__(self, name, hyps, goal, kind, line=None, fn=''):
        self.name, self.hyps, self.goal, self.kind, self.line, self.fn = name, hyps, goal, kind, line, fn


class Loops:
    """What an invariant sees."""
    def __init__(self, eng, st, entry, frame, k=None, n=None, rng=None, baseline=None):
        self.E, self.st, self.entry, self.fr, self.k, self.n, self.rng = eng, st, entry, frame, k, n, rng

    def _find(self, name):
        for fr in reversed(self.E.frames):
            if name in fr.names:
                return fr.names[name]
        return self.E.rebind(name)

    def v(self, name):
        if name == 'this':
            return self.E.read(self.fr.this, self.st)
        return self.E.value_of_cell(self.st, self._find(name))

    def o(self, name, n=1):
        """the n-th outer variable that name shadows here"""
        k = self._find(name)
        for _ in range(n):
            k = next(fr.outer[k] for fr in reversed(self.E.frames) if k in fr.outer)
        return self.E.value_of_cell(self.st, k)

    def e(self, name):
        if name == 'this':
            return self.E.read(self.fr.this, self.entry)
        return self.E.value_of_cell(self.entry, self._find(name))

    def pre(self, name):
        return self.E.pre[name]

    def has(self, name):
        try:
            self._find(name)
            return True
        except BindError:
            return False


class Program:
    """Merged IR of several translation units."""
    def __init__(self, irs, protos, enum_names=None):
        self.enum_names = enum_names or {}
        self.fns, self.types, self.records, self.globals, self.enums = {}, {}, {}, {}, {}
        for ir in irs:
            for f in ir['functions']:
                f.setdefault('uid', f['key'])
                self.fns.setdefault(f['key'], f)
            self.types.update(ir['types'])
            self.records.update(ir['records'])
            for k, g in ir['globals'].items():
                if g and (k not in self.globals or 'init' in g):
                    self.globals[k] = g
            self.enums.update(ir['enums'])
        used = {}

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'mcall' and 'rec' in x:
                    d = self.types.get(x['rec'], {})
                    if d.get('proto'):
                        m = x['m']
                        n = d['n']
                        for pre in ('', 'set_', 'has_', 'mutable_', 'add_', 'clear_'):
                            if m.startswith(pre):
                                used.setdefault(n, set()).add(m[len(pre):])
                        if m.endswith('_size'):
                            used.setdefault(n, set()).add(m[:-5])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for f in self.fns.values():
            walk(f)
        self.used = used
        for n, p in protos.items():
            for f in p['fields']:
                if f.get('oneof') and f.get('oneof') + '_case' in used.get(n, ()):
                    for g in p['fields']:
                        if g.get('oneof') == f['oneof']:
                            used[n].add(g['name'])
        # make sure types mentioned by protos exist
        for n, p in protos.items():
            for f in p['fields']:
                t = f['ctype']
                if t not in self.types:
                    self.types[t] = f['desc']
        self.protos = protos

    def leaf(self, rec):
        """no class of the program derives from rec, so a virtual call on it is the class's own function"""
        import re
        rec = re.sub(r'^const ', '', rec or '')
        while self.types.get(rec, {}).get('k') in ('ref', 'ptr'):
            rec = re.sub(r'^const ', '', self.types[rec]['t'])
        return rec in self.records and not any(rec in r['bases'] for r in self.records.values())

    def find(self, qual, nparams=None, sig=None, const=None):
        r = [f for f in self.fns.values() if f['q'] == qual]
        if nparams is not None:
            r = [f for f in r if len(f['params']) == nparams]
        if sig:
            r = [f for f in r if sig in f['key']]
        if not r:
            raise BindError('no function %s in the extracted program' % qual)
        if len(r) > 1:
            raise BindError('ambiguous function %s: %s' % (qual, [x['key'] for x in r]))
        return r[0]


class Engine:
    def __init__(self, prog, opts=None):
        self.P = prog
        self.S = Sorts(prog.types, prog.records, prog.enums, prog.protos, prog.used)
        self.opts = dict(checks='prove', div0=True, bounds=True, wrap=True, maxunroll=40, inline_depth=14)
        self.opts.update(opts or {})
        self.contracts = {}
        self.obs = []
        self.assumed = set()
        self.functions = {}
        self.n = 0
        self.uf = {}
        self.callees = {}
        self.contract_uses = set()
        self.sids = {}
        self.dropped = {}

    # ------------------------------------------------------------------ util
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def sort(self, ty):
        return self.S.sort(ty)

    def info(self, term):
        i = self.S.info.get(term.sort())
        if i is None:
            raise Unsupported('no structure for sort %s' % term.sort())
        return i

    def get(self, term, f):
        return self.info(term).get(term, f)

    def set(self, term, f, v):
        return self.info(term).set(term, f, v)

    def len(self, v):
        return self.get(v, 'len')

    def at(self, v, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return z3.Select(self.get(v, 'data'), i)

    def kd(self, ty):
        ty = self.S.strip(ty)
        return self.S.d(ty)

    def fact(self, f):
        if self.quiet:
            self.facts.append(f)
            return
        self.facts.append(f)

    def mul(self, a, b):
        """a product; with the option ufmul products of two unknown reals are opaque and commutative"""
        if self.opts.get('imul') and a.sort() == z3.IntSort() and b.sort() == z3.IntSort() and not z3.is_int_value(z3.simplify(a)) and not z3.is_int_value(z3.simplify(b)):
            return z3.Function('itimes', *[z3.IntSort()] * 3)(a, b)
        if not self.opts.get('ufmul') or a.sort() != z3.RealSort() or z3.is_rational_value(z3.simplify(a)) or z3.is_rational_value(z3.simplify(b)):
            return a * b
        f = z3.Function('times', *[z3.RealSort()] * 3)
        self.axiom(f(a, b) == f(b, a))
        if a.eq(b):
            self.axiom(f(a, a) >= 0)
        return f(a, b)

    def axiom(self, f):
        """a fact that holds on every path (an instance of an axiom)"""
        k = f.get_id() if hasattr(f, 'get_id') else id(f)
        if k not in self.axids:
            self.axids.add(k)
            self.axioms.append(f)

    def assume(self, f):
        if z3.is_true(f):
            return
        self.facts.append(Implies(self.st.pc(), f))

    def oblige(self, name, goal, kind, line=None):
        if self.st.dead:
            return
        g = Implies(self.st.pc(), goal)
        if is_true(g):
            self.trivial += 1
            return
        if self.quiet:
            return
        self.obs.append(Ob('%s:%s' % (self.top, name), list(self.facts), g, kind, line, self.top))

    def read(self, lv, st=None):
        st = st or self.st
        t = st.cells[lv.root]
        if isinstance(t, Ref):
            t = self.read(t.lv, st)
        for s in lv.steps:
            t = self.step(t, s)
        return t

    def step(self, t, s):
        if s[0] == 'f':
            return self.get(t, s[1])
        if s[0] == 'i':
            return z3.Select(self.get(t, 'data'), s[1])
        if s[0] == 'opt':
            return self.get(t, 'val')
        if s[0] == 'mapv':
            return z3.Select(self.get(t, 'val'), s[1])
        raise Unsupported('step %s' % (s,))

    def write(self, lv, v):
        root = self.st.cells[lv.root]
        if isinstance(root, Ref):
            return self.write(LV(root.lv.root, root.lv.steps + lv.steps), v)
        if not lv.steps:
            self.st.cells[lv.root] = v
            return
        self.st.cells[lv.root] = self.upd(root, lv.steps, v)

    def upd(self, t, steps, v):
        if not steps:
            if isinstance(v, z3.ExprRef) and v.sort() != t.sort():
                v = self.coerce_sort(v, t.sort())
            return v
        s = steps[0]
        if s[0] == 'f':
            nt = self.set(t, s[1], self.upd(self.get(t, s[1]), steps[1:], v))
            i = self.info(t)
            if i.kind == 'proto' and ('has_' + s[1]) in i.idx:
                nt = self.oneof_set(nt, i, s[1])
            return nt
        if s[0] == 'i':
            d = self.get(t, 'data')
            return self.set(t, 'data', z3.Store(d, s[1], self.upd(z3.Select(d, s[1]), steps[1:], v)))
        if s[0] == 'opt':
            return self.set(t, 'val', self.upd(self.get(t, 'val'), steps[1:], v))
        if s[0] == 'mapv':
            d = self.get(t, 'val')
            return self.set(t, 'val', z3.Store(d, s[1], self.upd(z3.Select(d, s[1]), steps[1:], v)))
        raise Unsupported('upd %s' % (s,))

    def oneof_set(self, t, i, f):
        t = i.set(t, 'has_' + f, TRUE)
        oo = i.pf[f].get('oneof')
        if oo:
            for g, d in i.pf.items():
                if g != f and d.get('oneof') == oo and 'has_' + g in i.idx:
                    t = i.set(t, 'has_' + g, FALSE)
                    t = i.set(t, g, self.pdefault(i, g))
        return t

    def pdefault(self, i, g):
        d = i.pf[g]
        s = i.fields[i.idx[g]][1]
        if d.get('default') is not None and not d['repeated']:
            return self.S.py(d['default'], s)
        return self.S.default_of_sort(s)

    def temp(self, v):
        self.n += 1
        k = ('tmp', self.n)
        self.st.cells[k] = v
        return LV(k)

    def coerce_sort(self, v, s):
        if not isinstance(v, z3.ExprRef):
            return v
        vs = v.sort()
        if vs == s:
            return v
        if s == z3.BoolSort():
            if vs == z3.IntSort():
                return v != 0
            if vs == z3.RealSort():
                return v != 0
        if s == z3.IntSort():
            if vs == z3.BoolSort():
                return If(v, I1, I0)
            if vs == z3.RealSort():
                return self.trunc(v)
        if s == z3.RealSort():
            if vs == z3.IntSort():
                return z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
            if vs == z3.BoolSort():
                return If(v, z3.RealVal(1), z3.RealVal(0))
        si, vi = self.S.info.get(s), self.S.info.get(vs)
        if si and si.kind == 'opt':
            if si.fields[1][1] == vs:
                return si.make(TRUE, v)
            try:
                return si.make(TRUE, self.coerce_sort(v, si.fields[1][1]))
            except Unsupported:
                pass
        if si and si.kind == 'statusor':
            if vi and vi.kind == 'status':
                return si.make(vi.get(v, 'ok'), self.S.default_of_sort(si.fields[1][1]))
            return si.make(TRUE, self.coerce_sort(v, si.fields[1][1]))
        if si and vi and len(si.fields) == len(vi.fields) and si.kind == vi.kind:
            return si.make(*[self.coerce_sort(vi.get(v, a[0]), b[1]) for a, b in zip(vi.fields, si.fields)])
        if si and vi and si.kind == 'rec' and vi.kind == 'rec':
            # derived <-> base
            fs = []
            for n, fsrt, _ in si.fields:
                fs.append(vi.get(v, n) if n in vi.idx and vi.fields[vi.idx[n]][1] == fsrt else self.fresh('slice_' + n, fsrt))
            return si.make(*fs)
        raise Unsupported('coerce %s -> %s' % (vs, s))

    def coerce(self, v, ty):
        if not isinstance(v, z3.ExprRef):
            d = self.kd(ty)
            if isinstance(v, Ptr) and d['k'] in ('int', 'bool'):
                return Not(v.null)
            if isinstance(v, Ptr) and isinstance(self.sort(ty), z3.DatatypeSortRef) and self.S.info[self.sort(ty)].kind == 'opt':
                s = self.sort(ty)
                if v.lv is None:
                    return self.S.default_of_sort(s)
                return self.S.info[s].make(Not(v.null), self.coerce_sort(self.read(v.lv), self.S.info[s].fields[1][1]))
            if isinstance(v, Lam):
                s = self.sort(ty)
                i = self.S.info.get(s)
                if i and i.kind == 'fn':
                    return i.make(TRUE, self.fresh('fn', OPQ))
            return v
        s = self.sort(ty)
        if s == v.sort() or s == OPQ:
            return v
        return self.coerce_sort(v, s)

    def trunc(self, x):
        if z3.is_rational_value(simp(x)):
            f = simp(x)
            from fractions import Fraction
            fr = Fraction(f.numerator_as_long(), f.denominator_as_long())
            return z3.IntVal(int(fr))
        return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    def func(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.uf:
            self.uf[k] = z3.Function(name, *sorts)
        return self.uf[k]

    # -------------------------------------------------------------- top level
    def verify(self, fn, requires=None, ensures=None, loops=None, callees=None,
               name=None, this=None, args=None, opts=None, nullable=(), symbolic_null=(), alias=None, bind=None):
        """Generate all obligations of one function against its contract.
        requires(a) -> [formula]; ensures(a, r) -> [(name, formula)]."""
        old = self.opts
        self.opts = dict(self.opts)
        self.opts.update(opts or {})
        self.loopspec = loops or {}
        self.callees = callees or {}
        self.bindmap = bind or {}
        self.top = name or re.sub(r'^waymo::open_dataset::', '', fn['q']).replace('(anonymous namespace)::', '')
        self.functions[self.top] = {'key': fn['key'], 'file': fn['file'], 'line': fn['line']}
        work = [()]
        count = 0
        start = len(self.obs)
        try:
            while work:
                dec = work.pop()
                count += 1
                if count > 200:
                    raise Unsupported('too many unmergeable paths in %s' % self.top)
                self.run_once(fn, dec, work, requires, ensures, args, nullable, symbolic_null, this)
        finally:
            self.opts = old
        return self.obs[start:]

    def reset(self, dec=(), work=None):
        self.dec, self.work, self.decpos = list(dec), work if work is not None else [], 0
        self.facts = []
        self.axioms = []
        self.axids = set()
        self.loopstack = []
        self.quiet = 0
        self.trivial = 0
        self.loopord = {}
        self.st = State()
        self.frames = []
        self.havocs = {}

    def symbolic_args(self, fn, args=None, nullable=(), symbolic_null=(), this=None):
        fr = Frame(fn, name=fn['q'])
        A = {}
        if 'rec' in fn and not fn.get('static'):
            s = self.sort(fn['rec'])
            t = this if this is not None else self.fresh('this', s)
            self.st.cells['this'] = t
            fr.this = LV('this')
            A['this'] = t
        vals = []
        for i, p in enumerate(fn['params']):
            d = self.S.d(p['t'])
            nm = p['n'] or 'arg%d' % i
            if args and i in args:
                v = args[i]
            elif args and nm in args:
                v = args[nm]
            elif d['k'] == 'ptr' and not (self.S.d(d['t']).get('w') == 8):
                s = self.S.vec(d['t']) if nm in self.opts.get('arrays', ()) else self.sort(d['t'])
                c = self.fresh(nm, s)
                self.st.cells[('arg', i)] = c
                null = FALSE
                if nm in nullable:
                    null = TRUE
                elif nm in symbolic_null:
                    null = self.fresh(nm + '_null', z3.BoolSort())
                v = Ptr(LV(('arg', i)), null)
                A[nm] = c
                A[i] = c
                A[nm + '_null'] = null
            else:
                s = self.sort(p['t'])
                v = self.fresh(nm, s)
                kd = self.kd(p['t'])
                if kd['k'] == 'rec' and kd.get('n') == 'std::array' and str(kd['args'][1]).isdigit():
                    i2 = self.info(v)
                    v = i2.make(z3.IntVal(int(kd['args'][1])), i2.get(v, 'data'))
            if isinstance(v, z3.ExprRef):
                A[nm] = v
                A[i] = v
                if d['k'] == 'ref':
                    self.st.cells[('arg', i)] = v
                    v = Ref(LV(('arg', i)))
                elif d['k'] == 'int' and not d.get('s', True):
                    self.fact(v >= 0)
            vals.append(v)
        return fr, A, vals

    def run_once(self, fn, dec, work, requires, ensures, args, nullable, symbolic_null, this):
        self.reset(dec, work)
        nob = len(self.obs)
        fr, A, vals = self.symbolic_args(fn, args, nullable, symbolic_null, this)
        for t in list(A.values()):
            if isinstance(t, z3.ExprRef):
                self.wf(t)
        self.A = A
        self.pre = A
        if requires:
            for r in requires(A):
                self.fact(r)
        nf = len(self.facts)
        self.reqfacts = list(self.facts)
        rets = self.run_body(fn, fr, vals)
        # postconditions: one obligation per return site group (merged states)
        if ensures:
            for (st, v) in rets:
                self.st = st
                self.post = {}
                for i, p in enumerate(fn['params']):
                    nm = p['n'] or 'arg%d' % i
                    if ('arg', i) in st.cells:
                        self.post[nm] = st.cells[('arg', i)]
                        self.post[i] = st.cells[('arg', i)]
                if 'this' in st.cells:
                    self.post['this'] = st.cells['this']
                rv = v
                if isinstance(v, Ptr) or isinstance(v, Iter):
                    rv = v
                if isinstance(rv, Ref):
                    rv = self.read(rv.lv)
                for (nm, g) in ensures(A, rv, self.post):
                    self.oblige('ensures:' + nm, g, 'ensures')
        self.final = rets
        for o in self.obs[nob:]:
            o.hyps = o.hyps + self.axioms

    def wf(self, t, depth=0):
        """well-formedness facts of a symbolic input: container sizes are not negative."""
        i = self.S.info.get(t.sort())
        if i is None or depth > 4:
            return
        if i.kind == 'vec':
            self.fact(i.get(t, 'len') >= 0)
            self.wf_elems(t, i)
        elif i.kind in ('map', 'set'):
            self.fact(i.get(t, 'card') >= 0)
        else:
            for n, s, _ in i.fields:
                if s in self.S.info:
                    self.wf(i.get(t, n), depth + 1)

    def nonneg_terms(self, t, depth=0):
        i = self.S.info.get(t.sort())
        if i is None or depth > 3:
            return []
        if i.kind == 'vec':
            r = [i.get(t, 'len') >= 0]
            return r
        if i.kind in ('map', 'set'):
            return [i.get(t, 'card') >= 0]
        r = []
        for n, s, _ in i.fields:
            if s in self.S.info:
                r += self.nonneg_terms(i.get(t, n), depth + 1)
        return r

    def wf_elems(self, t, i):
        k = self.fresh('wf', z3.IntSort())
        el = z3.Select(i.get(t, 'data'), k)
        fs = self.nonneg_terms(el)
        if fs:
            self.fact(z3.ForAll([k], And(*fs), patterns=[el]))

    # ---------------------------------------------------------------- calls
    def run_body(self, fn, fr, vals):
        """returns [(state, value)] merged to a single entry when possible"""
        self.frames.append(fr)
        base = len(self.st.path)
        basepath = self.st.path
        for p, v in zip(fn['params'], vals):
            key = ('p', fr.uid, p['id'])
            if isinstance(v, z3.ExprRef) and self.S.d(p['t'])['k'] != 'ref':
                v = self.coerce(v, p['t'])
            self.st.cells[key] = v
            fr.vars[p['id']] = key
            if p['n']:
                fr.names[p['n']] = key
        fr.rt = fn.get('rt')
        fr.returns = []
        if fn.get('ctor'):
            self.ctor_inits(fn, fr)
        if fn.get('body'):
            self.stmt(fn['body'])
        if not self.st.dead:
            fr.returns.append((self.st, None))
        rets = [r for r in fr.returns if not r[0].dead]
        self.frames.pop()
        if self.frames:
            for st, v in rets:
                if isinstance(v, (Ptr, Ref, Iter, Lam)):
                    continue
                for c in [c for c in st.cells if isinstance(c, tuple) and c[0] in ('p', 'v', 'rk') and c[1] == fr.uid]:
                    del st.cells[c]
        merged = self.merge_returns(rets, basepath)
        return merged

    def merge_returns(self, rets, basepath):
        n = len(basepath)
        out = []
        for st, v in rets:
            placed = False
            for j, (st2, v2) in enumerate(out):
                try:
                    c1 = And(*st2.path[n:])
                    c2 = And(*st.path[n:])
                    nv = self.merge_val(c1, v2, v)
                    cells = self.merge_cells(c1, st2.cells, st.cells)
                    ns = State(cells, basepath)
                    d = Or(c1, c2)
                    ns.add(d if not is_true(d) else TRUE)
                    out[j] = (ns, nv)
                    placed = True
                    break
                except Unmergeable:
                    continue
            if not placed:
                out.append((st, v))
        return out

    def call_fn(self, fn, this, vals, line=None):
        if len(self.frames) > self.opts['inline_depth']:
            raise Unsupported('inline depth at %s' % fn['q'])
        if sum(1 for f in self.frames if f.fn is fn) > 2:
            raise Unsupported('recursion in %s' % fn['q'])
        fr = Frame(fn, this, name=fn['q'])
        rets = self.run_body(fn, fr, vals)
        return self.finish_call(rets)

    def finish_call(self, rets):
        if not rets:
            self.st.dead = True
            raise Dead()
        if len(rets) > 1:
            i = self.choose_n(len(rets))
            st, v = rets[i]
        else:
            st, v = rets[0]
        self.st = st
        return v

    def choose_n(self, n):
        if self.quiet:
            # inside a dry run: explore the first alternative only is unsound; give up
            raise Unmergeable('unmergeable in loop dry run')
        if self.decpos < len(self.dec):
            d = self.dec[self.decpos]
        else:
            d = 0
            for k in range(1, n):
                self.work.append(tuple(self.dec[:self.decpos]) + (k,))
            self.dec.append(0)
        self.decpos += 1
        return d

    def ctor_inits(self, fn, fr):
        for i in fn.get('inits', []):
            if 'f' in i:
                lv = fr.this.then(('f', i['f']))
                cur = self.read(fr.this)
                inf = self.info(cur)
                if i['f'] not in inf.idx:
                    continue
                fty = inf.fields[inf.idx[i['f']]][2]
                v = self.init_value(i['e'], fty)
                self.write(lv, v)
            elif 'base' in i:
                e = i['e']
                if e and e['k'] == 'ctor' and e['key'] in self.P.fns:
                    f2 = self.P.fns[e['key']]
                    vals = self.args_for(f2, e['args'])
                    self.call_fn(f2, fr.this, vals)
            elif i.get('deleg'):
                v = self.ev(i['e'])
                self.write(fr.this, v)

    def args_for(self, fn, args):
        vals = []
        for p, a in zip(fn['params'], args):
            vals.append(self.arg(p['t'], a))
        return vals

    def arg(self, pty, a):
        d = self.S.d(pty)
        if d['k'] == 'ref':
            if self.kd(pty)['k'] == 'rec' and self.kd(pty).get('lambda'):
                return self.ev(a)
            if self.kd(pty)['k'] == 'ptr':
                v = self.ev(a)
                return v
            lv = self.lv_or_temp(a)
            if isinstance(lv, LV):
                return Ref(lv)
            return lv
        if d['k'] == 'ptr' and a.get('t') and self.S.d(a['t'])['k'] == 'arr':
            return Ptr(self.lv(a))
        v = self.ev(a)
        if isinstance(v, z3.ExprRef) and d['k'] not in ('ptr',) and self.sort(pty) != OPQ:
            v = self.coerce(v, pty)
        return v

    def lv_or_temp(self, a):
        lv, v = self.lvv(a)
        if lv is not None:
            return lv
        if not isinstance(v, z3.ExprRef):
            return v
        return self.temp(v)

    def lvv(self, a):
        """lvalue (or None) and value of an expression that is evaluated exactly once"""
        try:
            lv = self.lv(a)
        except NotLV2 as x:
            return None, x.v
        except NotLV:
            return None, self.ev(a)
        if not isinstance(lv, LV):
            return None, lv
        return lv, self.read(lv)

    # ------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            if a is None and b is None:
                return None
            raise Unmergeable('void/value')
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort():
                raise Unmergeable('sorts')
            return self.If(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.lv.same(b.lv):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is not None and b.lv is not None and a.lv.same(b.lv):
                return Ptr(a.lv, If(c, a.null, b.null))
            if a.lv is None:
                return Ptr(b.lv, If(c, TRUE, b.null))
            if b.lv is None:
                return Ptr(a.lv, If(c, a.null, TRUE))
        if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and a.lv.same(b.lv) and a.rev == b.rev:
            return Iter(a.lv, If(c, a.idx, b.idx), a.kind, If(c, a.end, b.end), a.rev)
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a
        raise Unmergeable('%r/%r' % (a, b))

    def If(self, c, a, b):
        if a.eq(b):
            return a
        i = self.S.info.get(a.sort())
        if i is not None and i.kind not in ('opaque',):
            # merge field-wise: keeps reads syntactic
            if z3.is_app(a) and a.decl().eq(i.ctor) or z3.is_app(b) and b.decl().eq(i.ctor):
                return i.make(*[self.If(c, i.get(a, n), i.get(b, n)) for n, _, _ in i.fields])
        r = If(c, a, b)
        if self.opts.get('name_joins') and z3.is_app_of(r, z3.Z3_OP_ITE) and a.sort() != z3.BoolSort():
            # a name for the merged value: terms over it stay small, and can be triggers
            if i is not None and i.kind not in ('opaque',):
                return i.make(*[self.If(c, i.get(a, n), i.get(b, n)) for n, _, _ in i.fields])
            m = self.fresh('either', a.sort())
            self.fact(m == r)
            return m
        return r

    def merge_cells(self, c, A, B):
        out = {}
        for k in A:
            if k in B:
                try:
                    out[k] = self.merge_val(c, A[k], B[k])
                except Unmergeable:
                    if isinstance(k, tuple) and k[0] == 'tmp':
                        continue
                    if isinstance(A[k], Lam) or isinstance(B[k], Lam):
                        continue
                    raise
        # variables that exist on one side only are out of scope after the join,
        # except references/temps that a surviving pointer may denote
        for k in A:
            if k not in B:
                out[k] = A[k]
        for k in B:
            if k not in A:
                out[k] = B[k]
        return out

    def join(self, c, sa, sb, n):
        """join two states whose paths share the first n entries"""
        if sa.dead and sb.dead:
            s = sa.copy()
            s.dead = True
            return s
        if sa.dead:
            return sb
        if sb.dead:
            return sa
        cells = self.merge_cells(c, sa.cells, sb.cells)
        s = State(cells, sa.path[:n])
        ea, eb = And(*sa.path[n:]), And(*sb.path[n:])
        # fully covering branches need no path condition
        if not (len(sa.path) == n + 1 and len(sb.path) == n + 1):
            d = Or(ea, eb)
            if not is_true(d):
                s.add(d)
        return s

    def branch(self, c, fa, fb):
        """execute fa under c and fb under not c, then merge.  fa/fb: thunks (may return a value)."""
        if not isinstance(c, z3.ExprRef):
            c = TRUE if c else FALSE
        sc = simp(c)
        if z3.is_true(sc):
            return fa()
        if z3.is_false(sc):
            return fb()
        if c in self.st.path or any(x.eq(c) for x in self.st.path):
            return fa()
        nc = Not(c)
        if any(x.eq(nc) for x in self.st.path):
            return fb()
        base = self.st
        n = len(base.path)
        marks = self.marks()
        sa = base.copy()
        sa.add(c)
        self.st = sa
        va = vb = None
        try:
            va = fa()
        except Dead:
            self.st.dead = True
        sa = self.st
        mida = self.marks()
        sb = base.copy()
        sb.add(nc)
        self.st = sb
        try:
            vb = fb()
        except Dead:
            self.st.dead = True
        sb = self.st
        midb = self.marks()
        if sa.dead and sb.dead:
            sa.dead = True
            self.st = sa
            return None
        try:
            if sa.dead:
                self.st = sb
                return vb
            if sb.dead:
                self.st = sa
                return va
            v = self.merge_val(c, va, vb)
            self.st = self.join(c, sa, sb, n)
            return v
        except Unmergeable:
            i = self.choose_n(2)
            if i == 0:
                self.unmark(mida, midb)
                self.st = sa
                return va
            self.unmark(marks, mida)
            self.st = sb
            return vb

    def marks(self):
        fr = self.frames[-1]
        return (len(fr.returns), [len(x) for x in getattr(self, 'loopstack', [])])

    def unmark(self, a, b):
        fr = self.frames[-1]
        del fr.returns[a[0]:b[0]]
        for i, x in enumerate(getattr(self, 'loopstack', [])):
            if i < len(a[1]):
                del x[a[1][i]:b[1][i]]

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.st.dead:
            return
        k = s['k']
        fr = self.frames[-1]
        outer = dict(fr.names) if k in ('block', 'for', 'rfor') else None
        try:
            getattr(self, 's_' + k)(s)
        except Dead:
            self.st.dead = True
        finally:
            if outer:
                fr.names.update(outer)      # a name the statement shadowed is visible again

    def s_null(self, s):
        pass

    def s_unk(self, s):
        raise Unsupported('statement %s at line %s' % (s.get('c'), s.get('l')))

    def s_block(self, s):
        for x in s['s']:
            if self.st.dead:
                return
            self.stmt(x)

    def s_expr(self, s):
        self.ev(s['e'])

    def s_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        key = ('v', fr.uid, v['id'])
        fr.vars[v['id']] = key
        if fr.names.get(v['n'], key) != key:
            fr.outer[key] = fr.names[v['n']]
        fr.names[v['n']] = key
        d = self.S.d(v['t'])
        if v.get('static') and 'init' in v:
            pass
        if v.get('bind'):
            self.destructure(v)
            return
        if d['k'] == 'ref':
            dd = self.kd(v['t'])
            r = self.lv_or_temp(v['init'])
            self.st.cells[key] = Ref(r) if isinstance(r, LV) else r
            return
        if 'init' in v:
            self.st.cells[key] = self.init_value(v['init'], v['t'])
        else:
            if self.kd(v['t'])['k'] == 'ptr':
                self.st.cells[key] = Ptr(None, TRUE)
            else:
                x = self.fresh(v['n'] + '_uninit', self.sort(v['t']))
                if d['k'] == 'arr' and d.get('n') is not None:
                    i = self.info(x)
                    x = i.make(z3.IntVal(d['n']), i.get(x, 'data'))
                self.st.cells[key] = x

    def init_value(self, e, ty):
        if e is None:
            return self.S.default_of_sort(self.sort(ty))
        v = self.ev(e, want=ty)
        if ty is None:
            return v
        d = self.kd(ty)
        if d['k'] == 'ptr' and not isinstance(v, z3.ExprRef):
            s = self.sort(ty)
            return v
        if isinstance(v, (Lam, Ptr, Iter, Opq)):
            if isinstance(v, Lam) and self.sort(ty) != OPQ and not d.get('lambda'):
                return self.coerce(v, ty)
            return v
        return self.coerce(v, ty)

    def destructure(self, v):
        lv = self.lv_or_temp(v['init'])
        fr = self.frames[-1]
        t = self.read(lv)
        i = self.info(t)
        if self.S.d(v['t'])['k'] != 'ref':
            lv = self.temp(t)
        for b, (fn_, _, _) in zip(v['bind'], i.fields):
            key = ('v', fr.uid, b['id'])
            fr.vars[b['id']] = key
            fr.names[b['n']] = key
            self.st.cells[key] = Ref(lv.then(('f', fn_)))

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.cond(s['c'])
        self.branch(c, lambda: self.stmt(s['a']), lambda: self.stmt(s['b']))

    def cond(self, e):
        v = self.ev(e)
        if isinstance(v, Ptr):
            return Not(v.null)
        if isinstance(v, Opq) and v.tag == 'checkop':
            return v.data
        if isinstance(v, Lam):
            return TRUE
        if v.sort() != z3.BoolSort():
            i = self.S.info.get(v.sort())
            if i and i.kind == 'opt':
                return i.get(v, 'has')
            if i and i.kind == 'fn':
                return i.get(v, 'set')
            v = self.coerce_sort(v, z3.BoolSort())
        return v

    def s_return(self, s):
        fr = self.frames[-1]
        v = None
        if 'e' in s:
            rt = fr.rt
            if rt and self.S.d(rt)['k'] == 'ref':
                v = self.lv_or_temp(s['e'])
                v = Ref(v) if isinstance(v, LV) else v
            else:
                v = self.ev(s['e'], want=rt)
                if rt and isinstance(v, z3.ExprRef) and self.kd(rt)['k'] not in ('void', 'ptr', 'other'):
                    v = self.coerce(v, rt)
                elif rt and isinstance(v, Lam) and not self.kd(rt).get('lambda'):
                    v = self.coerce(v, rt)
        fr.returns.append((self.st.copy(), v))
        self.st.dead = True

    def s_break(self, s):
        self.loopstack[-1].append(('break', self.st.copy()))
        self.st.dead = True

    def s_continue(self, s):
        j = len(self.loopstack) - 1
        while getattr(self.loopstack[j], 'is_switch', False):
            j -= 1
        self.loopstack[j].append(('continue', self.st.copy()))
        self.st.dead = True

    def s_switch(self, s):
        v = self.ev(s['c'])
        items = []       # flattened: ('case', val) | ('default',) | stmt

        def flat(x):
            if x is None:
                return
            if x['k'] == 'block' and x is s['body']:
                for y in x['s']:
                    flat(y)
            elif x['k'] == 'case':
                items.append(('case', x['v']))
                flat(x['s'])
            elif x['k'] == 'default':
                items.append(('default',))
                flat(x['s'])
            else:
                items.append(x)
        flat(s['body'])
        groups = []      # (list of case values or default flag, start index)
        for i, it in enumerate(items):
            if isinstance(it, tuple):
                if groups and groups[-1][2] == i:
                    groups[-1][2] = i + 1
                else:
                    groups.append([[], False, i + 1])
                if it[0] == 'case':
                    groups[-1][0].append(self.coerce_sort(self.ev(it[1]), v.sort()))
                else:
                    groups[-1][1] = True
        allv = [x for g in groups for x in g[0]]

        class LS(list):
            is_switch = True

        def run(g):
            for it in items[g[2]:]:
                if self.st.dead:
                    return
                if not isinstance(it, tuple):
                    self.stmt(it)

        stack = self.loopstack = getattr(self, 'loopstack', [])
        ls = LS()
        stack.append(ls)
        base = self.st
        n = len(base.path)

        def go(gs):
            if not gs:
                dg = [g for g in groups if g[1]]
                if dg:
                    run(dg[0])
                return
            g = gs[0]
            c = Or(*[v == x for x in g[0]])
            self.branch(c, lambda: run(g), lambda: go(gs[1:]))
        cg = [g for g in groups if g[0] and not g[1]]
        # default groups that also carry labels are reached through the default leg
        go(cg)
        stack.pop()
        exits = [st for k, st in ls if k == 'break']
        conts = [(k, st) for k, st in ls if k == 'continue']
        if conts:
            j = len(stack) - 1
            while getattr(stack[j], 'is_switch', False):
                j -= 1
            stack[j].extend(conts)
        self.st = self.join_many([x for x in [self.st] + exits], n)

    def join_many(self, sts, n):
        live = [s for s in sts if not s.dead]
        if not live:
            s = sts[0].copy()
            s.dead = True
            return s
        acc = live[0]
        base = acc.path[:n]
        cond = And(*acc.path[n:])
        for s in live[1:]:
            c2 = And(*s.path[n:])
            cells = self.merge_cells(cond, acc.cells, s.cells)
            acc = State(cells, base)
            cond = Or(cond, c2)
        if len(live) > 1:
            acc.add(simp(cond) if is_true(cond) else cond)
        return acc

    # ----------------------------------------------------------------- loops
    def s_while(self, s):
        self.loop(s, None, s.get('c'), None, s['body'], cv=s.get('cv'))

    def s_do(self, s):
        # body once, then while
        self.loop(s, None, s['c'], None, s['body'], first=True)

    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        self.loop(s, None, s.get('c'), s.get('inc'), s['body'])

    def s_rfor(self, s):
        r = s['range']
        lv = self.lv_or_temp(r)
        if not isinstance(lv, LV):
            raise Unsupported('range-for over %r' % lv)
        t = self.read(lv)
        i = self.info(t)
        fr = self.frames[-1]
        kkey = ('rk', fr.uid, 'k%d' % self.sids.setdefault(id(s), len(self.sids)))
        self.st.cells[kkey] = I0
        var = s['var']
        order = None
        if i.kind == 'vec':
            n = i.get(t, 'len')

            def bind():
                kk = self.st.cells[kkey]
                el = lv.then(('i', kk))
                self.bind_loopvar(var, el)
        elif i.kind in ('map', 'set'):
            n = i.get(t, 'card')
            enum, idx = order = self.enumeration(t, i)
            for f in (self.opts.get('on_enum') or (lambda *a: []))(self, enum, t, len(self.loopord)):
                self.fact(f)  # definitions by recursion over the iteration order

            def bind():
                kk = self.st.cells[kkey]
                key = enum(kk)
                if i.kind == 'set':
                    self.bind_loopvar(var, self.temp(key))
                else:
                    pt = self.pair_sort(i)
                    pi = self.S.info[pt]
                    self.bind_loopvar(var, self.temp(pi.make(key, z3.Select(i.get(self.read(lv), 'val'), key))))
        else:
            raise Unsupported('range-for over kind %s' % i.kind)
        self.loop(s, (kkey, n, lv, bind, order), None, None, s['body'])

    def pair_sort(self, i):
        key = ('pairof', i.sort)
        if key not in self.S.cache:
            ks, vs = i.fields[0][1].domain(), i.fields[1][1].range()
            self.S.cache[key] = self.S.mk('rec', 'MPair_%d' % len(self.S.cache),
                                        [('first', ks, getattr(i, 'kty', None)), ('second', vs, getattr(i, 'vty', None))])
        return self.S.cache[key]

    def enumeration(self, t, i):
        """iteration order of a map/set: an arbitrary bijection [0,card) -> dom"""
        ks = i.fields[0][1].domain()
        self.n += 1
        enum = z3.Function('enum!%d' % self.n, z3.IntSort(), ks)
        idx = z3.Function('eidx!%d' % self.n, ks, z3.IntSort())
        dom, card = i.get(t, 'dom'), i.get(t, 'card')
        k = z3.Int('k!e%d' % self.n)
        x = z3.Const('x!e%d' % self.n, ks)
        self.fact(z3.ForAll([k], Implies(And(k >= 0, k < card), And(z3.Select(dom, enum(k)), idx(enum(k)) == k)), patterns=[enum(k)]))
        self.fact(z3.ForAll([x], Implies(z3.Select(dom, x), And(idx(x) >= 0, idx(x) < card, enum(idx(x)) == x)), patterns=[z3.Select(dom, x)]))
        if getattr(i, 'ordered', False) and ks in (z3.IntSort(), z3.RealSort()):
            k2 = z3.Int('k2!e%d' % self.n)
            self.fact(z3.ForAll([k, k2], Implies(And(0 <= k, k < k2, k2 < card), enum(k) < enum(k2)), patterns=[z3.MultiPattern(enum(k), enum(k2))]))
        return enum, idx

    def bind_loopvar(self, var, lv):
        fr = self.frames[-1]
        key = ('v', fr.uid, var['id'])
        fr.vars[var['id']] = key
        if var.get('bind'):
            t = self.read(lv)
            i = self.info(t)
            if self.S.d(var['t'])['k'] != 'ref':
                lv = self.temp(t)
            for b, (fn_, _, _) in zip(var['bind'], i.fields):
                kk = ('v', fr.uid, b['id'])
                fr.vars[b['id']] = kk
                fr.names[b['n']] = kk
                self.st.cells[kk] = Ref(lv.then(('f', fn_)))
            return
        fr.names[var['n']] = key
        if self.S.d(var['t'])['k'] == 'ref':
            self.st.cells[key] = Ref(lv)
        else:
            self.st.cells[key] = self.read(lv)

    def loop(self, s, rng, cond, inc, body, cv=None, first=False):
        self.loopstack = getattr(self, 'loopstack', [])

        def guard():
            if rng:
                return self.st.cells[rng[0]] < rng[1]
            if cv:
                self.declare(cv)
            return TRUE if cond is None else self.cond(cond)

        def one():
            """execute the body once in the current state; returns break states"""
            ls = []
            self.loopstack.append(ls)
            n = len(self.st.path)
            if rng:
                rng[3]()
                self.rngstack = getattr(self, 'rngstack', []) + [rng[0]]
            self.stmt(body)
            if rng:
                self.rngstack = self.rngstack[:-1]
            self.loopstack.pop()
            conts = [st for k, st in ls if k == 'continue']
            brks = [st for k, st in ls if k == 'break']
            self.st = self.join_many([self.st] + conts, n)
            if not self.st.dead:
                if rng:
                    self.st.cells[rng[0]] = simp(self.st.cells[rng[0]] + 1)
                elif inc:
                    self.ev(inc)
            return brks
        n0 = len(self.st.path)
        entry = self.st.copy()
        exits = []
        # 1. unrolling when the trip count is concrete
        spec = None
        key = (id(s), tuple(id(f.fn) for f in self.frames))
        it = 0
        save = (self.st.copy(), self.frames[-1].returns[:], len(self.obs), len(self.facts))
        while True:
            if first and it == 0:
                g = TRUE
            else:
                try:
                    g = guard()
                except Dead:
                    self.st.dead = True
                    break
            g2 = simp(g)
            if z3.is_false(g2):
                exits.append(self.st)
                break
            if not z3.is_true(g2):
                if it == 0:
                    # loops whose body always aborts (CHECK_xx) are branches
                    if s['k'] == 'while' and self.aborts(body, g):
                        return
                    self.cut_loop(s, rng, guard, one, key, cv)
                    return
                # started concrete, became symbolic: restart with a cut
                self.st, self.frames[-1].returns = save[0], save[1]
                del self.obs[save[2]:]
                del self.facts[save[3]:]
                if first:
                    raise Unsupported('do-while with symbolic condition at line %s' % s['l'])
                self.cut_loop(s, rng, guard, one, key, cv)
                return
            if it >= self.opts['maxunroll'] or (it == 0 and s['k'] == 'while' and s['c']['k'] == 'bool'):
                self.st, self.frames[-1].returns = save[0], save[1]
                del self.obs[save[2]:]
                del self.facts[save[3]:]
                self.cut_loop(s, rng, guard, one, key, cv)
                return
            exits += one()
            it += 1
            if self.st.dead:
                break
        live = [x for x in exits if not x.dead]
        if not live:
            self.st.dead = True
            return
        self.st = self.join_many(live, n0)

    def aborts(self, body, g):
        st = self.st
        self.quiet += 1
        nf, no = len(self.facts), len(self.obs)
        rets = len(self.frames[-1].returns)
        try:
            self.st = st.copy()
            ls = []
            self.loopstack.append(ls)
            q = self.aborted = 0
            self.stmt(body)
            self.loopstack.pop()
            dead = self.st.dead and not ls and len(self.frames[-1].returns) == rets
        finally:
            self.quiet -= 1
            self.st = st
            del self.facts[nf:]
            del self.obs[no:]
            del self.frames[-1].returns[rets:]
        if dead:
            if any(f.get('nocheck') for f in ()):
                pass
            # a CHECK: prove that it cannot fire, or take it as the function's documented abort
            if self.opts['checks'] == 'prove':
                self.oblige('CHECK', Not(g), 'check', None)
            st.add(Not(g))
            return True
        return False

    # leaf paths that a loop changes
    def diff(self, old, new, path, out):
        if not isinstance(old, z3.ExprRef) or not isinstance(new, z3.ExprRef):
            same = old is new or (isinstance(old, Ref) and isinstance(new, Ref) and old.lv.same(new.lv)) \
                or (isinstance(old, Ptr) and isinstance(new, Ptr) and ((old.lv is None and new.lv is None) or (old.lv is not None and new.lv is not None and old.lv.same(new.lv))) and old.null.eq(new.null)) \
                or isinstance(old, Lam) or isinstance(old, Opq) \
                or (isinstance(old, Iter) and isinstance(new, Iter) and old.lv.same(new.lv) and old.idx.eq(new.idx))
            if not same and isinstance(old, Iter) and isinstance(new, Iter) and old.kind == new.kind == 'vec' and old.rev == new.rev and old.lv.same(new.lv):
                out.add((path + ('*idx',), ''))
            elif not same:
                out.add((path, '*py'))
            return
        if old.eq(new):
            return
        i = self.S.info.get(old.sort())
        if i is not None:
            for n, _, _ in i.fields:
                self.diff(i.get(old, n), i.get(new, n), path + (n,), out)
            return
        if simp(old).eq(simp(new)):
            return
        out.add((path, ''))

    def havoc_path(self, t, path, nm):
        if not path:
            v = self.fresh(nm, t.sort())
            return v
        return self.set(t, path[0], self.havoc_path(self.get(t, path[0]), path[1:], nm + '_' + path[0]))

    def cut_loop(self, s, rng, guard, one, key, cv):
        if key not in self.loopord:
            self.loopord[key] = len(self.loopord)
        ordn = self.loopord[key]
        inv = self.loopspec.get(ordn)
        if inv is None and '*' in self.loopspec:
            inv = self.loopspec['*']
        base = self.st
        n0 = len(base.path)
        entry = base.copy()
        frame = self.frames[-1]
        nret0 = len(frame.returns)

        # ---- 2. modified set (fixpoint over dry runs)
        mod = set()
        newcells = None
        for _ in range(8):
            self.st = base.copy()
            hv = {}
            self.apply_havoc(mod, hv)
            pre = self.st.copy()
            self.quiet += 1
            nf, no, sl = len(self.facts), len(self.obs), len(self.loopstack)
            frs = len(self.frames)
            try:
                g = guard()
                self.st.add(g)
                brk = one()
                ends = [self.st] + brk
                rets = [r[0] for r in frame.returns[nret0:]]
            finally:
                self.quiet -= 1
                del self.facts[nf:]
                del self.obs[no:]
                del self.loopstack[sl:]
                del self.frames[frs:]
                del frame.returns[nret0:]
            before = set(mod)
            for e in ends + rets:
                if e.dead and e is self.st:
                    continue
                for c in base.cells:
                    if c not in e.cells:
                        continue
                    out = set()
                    self.diff(pre.cells[c], e.cells[c], (), out)
                    for p, fl in out:
                        if fl:
                            raise Unsupported('loop at line %s changes a pointer-like variable %s' % (s['l'], c))
                        mod.add((c, p))
            if mod == before:
                break
        else:
            raise Unsupported('modified set did not converge')
        if rng and (rng[2].root, ()) in mod:
            raise Unsupported('range-for mutates its range')

        if inv is None:
            invf = lambda L: []
        else:
            invf = inv

        outer = [c for c in getattr(self, 'rngstack', [])]

        def mkL(st):
            k = st.cells[rng[0]] if rng else self.loopvar(s, st)
            L = Loops(self, st, entry, frame, k, rng[1] if rng else None, rng[2] if rng else None)
            L.enum, L.idx = (rng[4] if rng and rng[4] else (None, None))
            L.outer = [st.cells[c] for c in outer if c in st.cells]
            return L

        # ---- 3. invariant on entry
        self.st = base
        if not self.quiet:
            for nm, f in self.norm(invf(mkL(base))):
                self.oblige('loop%d:init:%s' % (ordn, nm), f, 'loop-init', s['l'])
        # ---- 4. arbitrary iteration
        cand = self.auto_candidates(s, rng, mod, entry, base)
        dropped = self.dropped.setdefault((id(s), len(cand)), set())      # candidates that already failed on this loop
        number = {id(c): j for j, c in enumerate(cand)}
        cand = [c for j, c in enumerate(cand) if j not in dropped]
        keep = list(cand)
        nf0 = len(self.facts)
        while True:
            self.st = base.copy()
            hv = {}
            self.apply_havoc(mod, hv)
            head = self.st.copy()
            for nm, f in self.norm(invf(mkL(head))):
                self.assume(f)
            for f in [c(head) for c in cand]:
                self.assume(f)
            nfh = len(self.facts)
            try:
                g = guard()
            except Dead:
                self.st.dead = True
                return
            guarded = self.st.copy()
            mark = (len(self.obs), len(self.facts), self.dec[:], self.decpos)
            self.st.add(g)
            brks = one()
            bad = []
            if not self.st.dead:
                for c in cand:
                    try:
                        goal = c(self.st)
                    except Exception:
                        bad.append(c)
                        continue
                    if not self.quick(Implies(self.st.pc(), goal)) and not self.quick(Implies(self.st.pc(), goal), 800, nf0):
                        bad.append(c)
            if not bad:
                break
            cand = [c for c in cand if c not in bad]
            dropped.update(number[id(c)] for c in bad)
            del self.obs[mark[0]:]
            del frame.returns[nret0:]
            # facts assumed for the dropped candidates must go too
            del self.facts[nf0:]
            self.dec, self.decpos = mark[2], mark[3]
        if not self.st.dead and not self.quiet:
            for nm, f in self.norm(invf(mkL(self.st))):
                self.oblige('loop%d:keep:%s' % (ordn, nm), f, 'loop-keep', s['l'])
        # ---- 5. exit
        out = guarded
        out.add(Not(g))
        live = [x for x in brks if not x.dead]
        # returns inside the body stay recorded: their path contains the havocked iteration
        self.st = self.join_many([out] + live, n0)

    def norm(self, l):
        r = []
        for i, x in enumerate(l or []):
            if isinstance(x, tuple):
                r.append(x)
            else:
                r.append((str(i), x))
        return r

    def loopvar(self, s, st):
        if s['k'] == 'for' and s.get('init') and s['init']['k'] == 'decl' and s['init']['v']:
            key = self.frames[-1].vars.get(s['init']['v'][0]['id'])
            v = st.cells.get(key)
            return v
        return None

    def apply_havoc(self, mod, hv):
        for c, p in sorted(mod, key=str):
            t = self.st.cells[c]
            if p == ('*idx',):
                self.st.cells[c] = Iter(t.lv, self.fresh('pos', z3.IntSort()), t.kind, t.end, t.rev)
                continue
            nt = self.havoc_path(t, p, 'h_%s' % (c[-1] if isinstance(c, tuple) else c))
            self.st.cells[c] = nt
        for c, p in sorted(mod, key=str):
            if p and p[-1] in ('len', 'card'):
                t = self.st.cells[c]
                for x in p:
                    t = self.get(t, x)
                self.fact(t >= 0)
        # element well-formedness for havocked vectors of containers
        for c, p in sorted(mod, key=str):
            if p and p[-1] == 'data' and isinstance(self.st.cells[c], z3.ExprRef):
                t = self.st.cells[c]
                for x in p[:-1]:
                    t = self.get(t, x)
                i = self.S.info.get(t.sort())
                if i and i.kind == 'vec':
                    self.wf_elems(t, i)

    def auto_candidates(self, s, rng, mod, entry, base):
        cands = []
        if rng:
            k, n = rng[0], rng[1]
            cands.append(lambda st: st.cells[k] >= 0)
            cands.append(lambda st: st.cells[k] <= If(n >= 0, n, I0))
            return cands
        lead = []
        for key, path in mod:
            if path == ('*idx',):
                e0 = entry.cells[key].idx
                cands.append(lambda st, key=key, e0=e0: st.cells[key].idx >= e0)
                cands.append(lambda st, key=key: st.cells[key].idx <= self.len(self.read(st.cells[key].lv, st)))
        if s['k'] == 'for' and s.get('init') and s['init']['k'] == 'decl':
            for v in s['init']['v']:
                key = self.frames[-1].vars.get(v['id'])
                if (key, ()) in mod and entry.cells[key].sort() == z3.IntSort():
                    lead.append(key)
        c = s.get('c')
        for key in lead:
            e0 = entry.cells[key]
            cands.append(lambda st, key=key, e0=e0: st.cells[key] >= e0)
            cands.append(lambda st, key=key, e0=e0: st.cells[key] <= e0)
        # bounds from comparison conjuncts of the guard

        def conj(c):
            if c and c['k'] == 'bin' and c['op'] == '&&':
                return conj(c['a']) + conj(c['b'])
            return [c] if c else []
        for cc in conj(c):
            if cc['k'] == 'bin' and cc['op'] in ('<', '<=', '>', '>=', '!='):
                for x, y, op in ((cc['a'], cc['b'], cc['op']), (cc['b'], cc['a'], {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[cc['op']])):
                    while x['k'] == 'cast':
                        x = x['e']
                    if x['k'] == 'var':
                        key = self.frames[-1].vars.get(x['id'])
                        if key is None or (key, ()) not in mod:
                            continue

                        def b(st, key=key, y=y, op=op, base=base):
                            old = self.st
                            self.st = st.copy()
                            self.quiet += 1
                            try:
                                yb = self.ev(y)
                            finally:
                                self.quiet -= 1
                                self.st = old
                            e0 = entry.cells[key]
                            v = st.cells[key]
                            if yb.sort() != v.sort():
                                yb = self.coerce_sort(yb, v.sort())
                            if op in ('<', '!='):
                                return Or(v <= yb, v <= e0)
                            if op == '<=':
                                return Or(v <= yb + 1, v <= e0)
                            if op == '>':
                                return Or(v >= yb, v >= e0)
                            return Or(v >= yb - 1, v >= e0)
                        cands.append(b)
        return cands

    def quick(self, goal, ms=400, lo=None):
        s = z3.Solver()
        s.set('timeout', ms)
        for f in (self.facts[lo:] if lo is not None else self.facts[-60:]):
            if not has_quantifier(f):
                s.add(f)
        s.set('rlimit', ms * 5000)
        s.add(Not(goal))
        return s.check() == z3.unsat

    def value_of_cell(self, st, key):
        v = st.cells[key]
        if isinstance(v, Ref):
            return self.read(v.lv, st)
        if isinstance(v, Ptr):
            return self.read(v.lv, st)
        return v

    def rebind(self, name):
        alt = self.bindmap.get(name)
        if alt:
            for cand in ([alt] if not callable(alt) else []):
                for fr in reversed(self.frames):
                    if cand in fr.names:
                        return fr.names[cand]
            if callable(alt):
                r = alt(self)
                if r is not None:
                    return r
        raise BindError('no variable named %s in scope of %s' % (name, self.top))

    # ----------------------------------------------------------- expressions
    def ev(self, e, want=None):
        if e is None:
            return None
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s' % k)
        if k in ('init', 'ctor', 'zero', 'lambda'):
            return m(e, want)
        v = m(e)
        if isinstance(v, Ref):
            return self.read(v.lv)
        if isinstance(v, LV):
            return self.read(v)
        return v

    def e_int(self, e):
        return z3.IntVal(int(e['v']))

    def e_bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_real(self, e):
        v = e['v']
        if v in ('inf', '-inf', 'nan'):
            if v == 'nan':
                return z3.Const('nan_const', z3.RealSort())
            c = z3.Const('inf_const', z3.RealSort())
            return c if v == 'inf' else -c
        return realval(v, e.get('w', 64))

    def e_str(self, e):
        return self.S.lit(e['v'])

    def e_null(self, e):
        return Ptr(None, TRUE)

    def e_this(self, e):
        for fr in reversed(self.frames):
            if fr.this is not None:
                return Ptr(fr.this)
            if fr.fn is not None:
                break
        raise Unsupported('this')

    def cell_of(self, id_):
        for fr in reversed(self.frames):
            if id_ in fr.vars:
                return fr.vars[id_]
            if not getattr(fr, 'transparent', False):
                break
        for fr in reversed(self.frames):
            if id_ in fr.vars:
                return fr.vars[id_]
        raise Unsupported('unbound variable id %s' % id_)

    def e_var(self, e):
        v = self.st.cells[self.cell_of(e['id'])]
        if isinstance(v, Ref):
            return self.read(v.lv)
        return v

    e_binding = e_var

    def gvar_term(self, e):
        g = self.P.globals.get(e['n'])
        key = ('g', e['n'])
        if key not in self.st.cells:
            if g and 'init' in g and g['const']:
                fr = Frame()
                self.frames.append(fr)
                try:
                    self.st.cells[key] = self.init_value(g['init'], g['t'])
                finally:
                    self.frames.pop()
            else:
                self.st.cells[key] = self.fresh('global_' + e['n'].split('::')[-1], self.sort(e['t']))
                self.assumed.add('global %s treated as an arbitrary value' % e['n'])
        return LV(key)

    def e_gvar(self, e):
        if re.search(r'std::(cout|cerr|nullopt)|in_place', e['n']):
            return Opq(e['n'])
        return self.read(self.gvar_term(e))

    def e_fn(self, e):
        return Opq('fn', e)

    def e_member(self, e):
        lv = self.lv(e)
        if not isinstance(lv, LV):
            return lv
        return self.read(lv)

    def e_cast(self, e):
        c = e['c']
        v = self.ev(e['e'])
        if c in ('ToVoid',):
            return None
        if c == 'PointerToBoolean':
            if isinstance(v, Ptr):
                return Not(v.null)
            if isinstance(v, z3.ExprRef):
                i = self.S.info.get(v.sort())
                if i and i.kind == 'opt':
                    return i.get(v, 'has')
            raise Unsupported('PointerToBoolean')
        if c == 'NullToPointer':
            return Ptr(None, TRUE)
        if c in ('BitCast', 'Dependent'):
            return v
        if not isinstance(v, z3.ExprRef):
            return v
        d = self.kd(e['t'])
        r = self.coerce(v, e['t'])
        if c == 'IntegralCast' and d['k'] == 'int' and not d['s'] and self.opts['wrap']:
            sd = self.kd(e['e'].get('t', 'int'))
            if sd['k'] == 'int' and sd['s'] and v.sort() == z3.IntSort():
                self.oblige('unsigned-conversion', v >= 0, 'wrap', e.get('l'))
        return r

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            lv = self.lv(e['e'])
            old = self.read(lv)
            if isinstance(old, Iter):
                new = Iter(old.lv, old.idx + 1, old.kind, old.end, old.rev)
                self.write(lv, new)
                return old if e['post'] else new
            one = I1 if old.sort() == z3.IntSort() else z3.RealVal(1)
            new = old + one if op == '++' else old - one
            self.write(lv, new)
            return old if e['post'] else new
        if op == '&':
            if e['e']['k'] == 'fn':
                return self.ev(e['e'])
            lv = self.lv_or_temp(e['e'])
            return Ptr(lv) if isinstance(lv, LV) else lv
        if op == '*':
            v = self.ev(e['e'])
            if isinstance(v, Ptr):
                return self.read(self.deref(v, e))
            if isinstance(v, z3.ExprRef) and self.S.info.get(v.sort()) and self.info(v).kind == 'opt':
                return self.get(v, 'val')
            raise Unsupported('deref')
        v = self.ev(e['e'])
        if op == '!':
            if isinstance(v, Ptr):
                return v.null
            if v.sort() != z3.BoolSort():
                v = self.coerce_sort(v, z3.BoolSort())
            return Not(v)
        if op == '-':
            v = self.coerce(v, e['t'])
            return -v
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def deref(self, p, e=None):
        if p.lv is None:
            self.oblige('null-dereference', FALSE, 'null', e.get('l') if e else None)
            self.st.dead = True
            raise Dead()
        if not z3.is_false(p.null):
            self.oblige('null-dereference', Not(p.null), 'null', e.get('l') if e else None)
        return p.lv

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'])
            if op == '&&':
                r = self.branch(a, lambda: self.cond(e['b']), lambda: FALSE)
            else:
                r = self.branch(a, lambda: TRUE, lambda: self.cond(e['b']))
            if r is None:
                raise Dead()
            # branch merges to If(a, b, False): keep it flat
            return simp_bool(r)
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a, b = self.ev(e['a']), self.ev(e['b'])
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ('==', '!='):
                r = self.ptr_eq(a, b)
                return r if op == '==' else Not(r)
            raise Unsupported('pointer arithmetic')
        if isinstance(a, Iter) and isinstance(b, Iter):
            return self.iter_op(op, a, b)
        if isinstance(a, Iter) and isinstance(b, z3.ExprRef):
            return Iter(a.lv, a.idx + b if op == '+' else a.idx - b, a.kind, a.end, a.rev)
        if a.sort() != b.sort():
            if z3.RealSort() in (a.sort(), b.sort()):
                a, b = self.coerce_sort(a, z3.RealSort()), self.coerce_sort(b, z3.RealSort())
            elif z3.IntSort() in (a.sort(), b.sort()):
                a, b = self.coerce_sort(a, z3.IntSort()), self.coerce_sort(b, z3.IntSort())
        if op == '==':
            return a == b if not a.eq(b) else TRUE
        if op == '!=':
            return Not(a == b) if not a.eq(b) else FALSE
        if a.sort() == z3.BoolSort():
            if op in ('&', '|', '^'):
                return {'&': And, '|': Or, '^': lambda x, y: z3.Xor(x, y)}[op](a, b)
            a, b = self.coerce_sort(a, z3.IntSort()), self.coerce_sort(b, z3.IntSort())
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        if op == '+':
            return a + b
        if op == '-':
            r = a - b
            d = self.kd(e['t']) if e and 't' in e else {}
            if d.get('k') == 'int' and not d.get('s') and self.opts['wrap']:
                self.oblige('unsigned-subtraction', r >= 0, 'wrap', e.get('l'))
            return r
        if op == '*':
            return self.mul(a, b)
        if op == '/':
            if a.sort() == z3.RealSort():
                if self.opts['div0'] and not (z3.is_rational_value(b) and b.numerator_as_long() != 0):
                    self.oblige('division-by-zero', b != 0, 'div0', e.get('l') if e else None)
                return a / b
            self.oblige('division-by-zero', b != 0, 'div0', e.get('l') if e else None)
            return self.tdiv(a, b)
        if op == '%':
            self.oblige('division-by-zero', b != 0, 'div0', e.get('l') if e else None)
            return a - b * self.tdiv(a, b)
        if op in ('<<', '>>'):
            sb = simp(b)
            if z3.is_int_value(sb):
                p = z3.IntVal(1 << sb.as_long())
                return a * p if op == '<<' else a / p
        if op in ('&', '|', '^'):
            f = self.func('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.assumed.add('bitwise %s on symbolic integers is uninterpreted' % op)
            return f(a, b)
        raise Unsupported('binary ' + op)

    def tdiv(self, a, b):
        sa, sb = simp(a), simp(b)
        if z3.is_int_value(sa) and z3.is_int_value(sb) and sb.as_long() != 0:
            q = abs(sa.as_long()) // abs(sb.as_long())
            return z3.IntVal(q if (sa.as_long() < 0) == (sb.as_long() < 0) else -q)
        if z3.is_int_value(sb):
            bb = sb.as_long()
            q = If(a >= 0, a / z3.IntVal(abs(bb)), -((-a) / z3.IntVal(abs(bb))))
            return q if bb > 0 else -q
        return If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))

    def ptr_eq(self, a, b):
        if isinstance(a, z3.ExprRef):
            a, b = b, a
        if isinstance(b, z3.ExprRef):
            i = self.S.info.get(b.sort())
            if i and i.kind == 'opt' and a.lv is None:
                return Not(i.get(b, 'has'))
            if i and i.kind == 'fn' and a.lv is None:
                return Not(i.get(b, 'set'))
            raise Unsupported('pointer comparison')
        if a.lv is None:
            return b.null
        if b.lv is None:
            return a.null
        la, lb = a.lv, b.lv
        if la.root == lb.root and len(la.steps) == len(lb.steps):
            c = []
            for x, y in zip(la.steps, lb.steps):
                if x[0] != y[0]:
                    return And(a.null, b.null)
                if isinstance(x[1], z3.ExprRef):
                    c.append(x[1] == y[1])
                elif x[1:] != y[1:]:
                    return And(a.null, b.null)
            return Or(And(a.null, b.null), And(Not(a.null), Not(b.null), *c))
        return And(a.null, b.null)

    def e_cond(self, e):
        c = self.cond(e['c'])

        def leg(x):
            def f():
                v = self.ev(x)
                if isinstance(v, z3.ExprRef) and self.kd(e['t'])['k'] not in ('void', 'ptr', 'other'):
                    v = self.coerce(v, e['t'])
                return v
            return f
        r = self.branch(c, leg(e['a']), leg(e['b']))
        if self.st.dead:
            raise Dead()
        return r

    def e_assign(self, e):
        lv = self.lv(e['a'])
        v = self.ev(e['b'], want=e['a'].get('t'))
        if isinstance(v, z3.ExprRef):
            cur = self.read(lv)
            if isinstance(cur, z3.ExprRef) and cur.sort() != v.sort():
                v = self.coerce_sort(v, cur.sort())
        elif isinstance(v, Ptr):
            cur = self.read(lv)
            if isinstance(cur, z3.ExprRef):
                v = self.coerce(v, e['a']['t'])
        self.write(lv, v)
        return v

    def e_opassign(self, e):
        lv = self.lv(e['a'])
        b = self.ev(e['b'])
        a = self.read(lv)
        if isinstance(a, Iter):
            self.write(lv, Iter(a.lv, a.idx + b if e['op'] == '+' else a.idx - b, a.kind, a.end, a.rev))
            return self.read(lv)
        ct = e['ct']
        r = self.binop(e['op'], self.coerce(a, ct), self.coerce(b, ct) if b.sort() != z3.IntSort() or self.kd(ct)['k'] == 'real' else b, {'t': ct, 'l': e.get('l')})
        if r.sort() != a.sort():
            r = self.coerce_sort(r, a.sort())
        self.write(lv, r)
        return r

    def e_sub(self, e):
        return self.read(self.lv(e))

    def e_zero(self, e, want=None):
        return self.S.default_of_sort(self.sort(e['t']))

    def e_unk(self, e):
        raise Unsupported('expression %s at line %s' % (e.get('c'), e.get('l')))

    def e_lambda(self, e, want=None):
        vars = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.e_this(e).lv
                continue
            key = self.cell_of(c['id'])
            if c['ref']:
                vars[c['id']] = key
            else:
                v = self.st.cells[key]
                self.n += 1
                k2 = ('cap', self.n)
                self.st.cells[k2] = self.read(v.lv) if isinstance(v, Ref) else v
                vars[c['id']] = k2
        return Lam(e, vars, this)

    def call_lambda(self, lam, vals):
        fr = Frame({'params': lam.node['params']}, lam.this, dict(lam.vars), 'lambda')
        fn = {'params': lam.node['params'], 'rt': lam.node['rt'], 'body': lam.node['body'], 'q': 'lambda'}
        rets = self.run_body(fn, fr, vals)
        return self.finish_call(rets)

    def e_init(self, e, want=None):
        ty = e['t']
        s = self.sort(ty)
        d = self.kd(ty)
        if d['k'] in ('int', 'real', 'bool', 'enum'):
            return self.coerce(self.ev(e['args'][0]), ty) if e['args'] else self.S.default_of_sort(s)
        i = self.S.info.get(s)
        if i is None:
            if len(e['args']) == 1:
                return self.ev(e['args'][0])
            raise Unsupported('init list of %s' % ty)
        if i.kind == 'vec':
            if d.get('n') == 'std::array' and len(e['args']) == 1 and e['args'][0]['k'] == 'init':
                return self.ev(e['args'][0])
            vals = [self.coerce_sort(self.ev(a, want=None), i.elem) for a in e['args']]
            data = i.get(self.S.default_of_sort(s), 'data')
            for j, v in enumerate(vals):
                data = z3.Store(data, j, v)
            n = len(vals)
            if d['k'] == 'arr':
                n = d['n']
            return i.make(z3.IntVal(n), data)
        vals = []
        for a, (n, fs, ft) in zip(e['args'], i.fields):
            v = self.init_value(a, ft)
            if isinstance(v, Ptr):
                v = self.coerce(v, ft)
            vals.append(self.coerce_sort(v, fs))
        for n, fs, ft in i.fields[len(vals):]:
            vals.append(self.S.default_of_sort(fs))
        return i.make(*vals)

    def e_new(self, e):
        if e.get('n') is not None:
            n = self.ev(e['n'])
            self.oblige('new[] of a non-negative size', n >= 0, 'bounds', e.get('l'))
            vs = self.S.vec(e['at'])
            i = self.S.info[vs]
            d = z3.K(z3.IntSort(), self.S.default_of_sort(i.elem)) if e.get('init') else self.fresh('new', i.acc['data'].range())
            return Ptr(self.temp(i.make(n, d)))
        v = self.init_value(e['e'], e['at'])
        return Ptr(self.temp(v))

    # ------------------------------------------------------------- lvalues
    def lv(self, e):
        k = e['k']
        if k in ('var', 'binding'):
            key = self.cell_of(e['id'])
            v = self.st.cells[key]
            if isinstance(v, Ref):
                return v.lv
            return LV(key)
        if k == 'gvar':
            return self.gvar_term(e)
        if k == 'member':
            if e['arrow']:
                blv, b = self.lvv(e['b'])
                if isinstance(b, Ptr):
                    lv = self.deref(b, e)
                elif isinstance(b, Iter):
                    lv = self.iter_lv(b, e)
                elif isinstance(b, z3.ExprRef) and self.info(b).kind == 'opt':
                    lv = blv.then(('opt', None)) if blv is not None else self.temp(self.get(b, 'val'))
                else:
                    raise Unsupported('-> on %r' % b)
            else:
                lv = self.lv_or_temp(e['b'])
                if type(lv).__name__ == 'PPair':
                    return getattr(lv, e['n'])
                if not isinstance(lv, LV):
                    raise Unsupported('member of %r' % lv)
            f = e['n']
            t = self.read(lv)
            if type(t).__name__ == 'PPair':
                return getattr(t, f)
            i = self.info(t)
            if f not in i.idx:
                raise Unsupported('no field %s in %s' % (f, i.ty))
            return lv.then(('f', f))
        if k == 'un' and e['op'] == '*':
            v = self.ev(e['e'])
            if isinstance(v, Ptr):
                return self.deref(v, e)
            if isinstance(v, Iter):
                return self.iter_lv(v, e)
            raise NotLV()
        if k == 'un' and e['op'] in ('++', '--') and not e['post']:
            self.ev(e)
            return self.lv(e['e'])
        if k == 'sub':
            b = e['b']
            i = self.ev(e['i'])
            lv, v = self.lvv(b)
            if lv is None:
                lv = self.deref(v, e) if isinstance(v, Ptr) else self.temp(v)
            v = self.read(lv)
            if isinstance(v, Ptr):
                lv = self.deref(v, e)
            if self.opts.get('on_index'):
                self.opts['on_index'](self, lv, i)
            self.bound(lv, i, e)
            return lv.then(('i', i))
        if k in ('assign', 'opassign'):
            self.ev(e)
            return self.lv(e['a'])
        if k == 'cond':
            # both legs must be lvalues; unmergeable ones fork
            r = self.branch(self.cond(e['c']), lambda: Ref(self.lv_or_temp(e['a'])), lambda: Ref(self.lv_or_temp(e['b'])))
            return r.lv
        if k in ('opcall', 'mcall', 'call'):
            r = self.call_expr(e, aslv=True)
            if isinstance(r, Ref):
                return r.lv
            if isinstance(r, LV):
                return r
            if isinstance(r, z3.ExprRef):
                return self.temp(r)
            self._lastval = r
            raise NotLV2(r)
        if k == 'cast':
            if e['c'] in ('BitCast',):
                return self.lv(e['e'])
        raise NotLV()

    def bound(self, lv, i, e):
        if self.opts['bounds']:
            n = self.get(self.read(lv), 'len')
            b = e.get('b')
            while b is not None and b.get('k') == 'cast':
                b = b['e']
            d = self.S.d(b['t']) if b is not None and b.get('t') else {}
            if d.get('k') == 'arr':
                n = z3.IntVal(d['n'])
            self.oblige('index-in-bounds', And(i >= 0, i < n), 'bounds', e.get('l'))

    def e_call(self, e):
        return self.call_expr(e)

    def e_mcall(self, e):
        return self.call_expr(e)

    def e_opcall(self, e):
        return self.call_expr(e)

    def e_ctor(self, e, want=None):
        from . import cxxmodels
        return cxxmodels.ctor(self, e, want)

    def call_expr(self, e, aslv=False):
        from . import cxxmodels
        try:
            return cxxmodels.call(self, e)
        except NotLV2 as x:
            return x.v

    def iter_lv(self, it, e):
        if it.kind == 'vec':
            n = self.get(self.read(it.lv), 'len')
            idx = it.idx if not it.rev else n - 1 - it.idx
            if self.opts['bounds']:
                self.oblige('iterator-dereference', And(it.idx >= 0, it.idx < n), 'bounds', e.get('l') if e else None)
            return it.lv.then(('i', idx))
        t = self.read(it.lv)
        i = self.info(t)
        if self.opts['bounds']:
            self.oblige('iterator-dereference', Not(it.end), 'bounds', e.get('l') if e else None)
        if i.kind == 'set':
            return self.temp(it.idx)
        pi = self.S.info[self.pair_sort(i)]
        tmp = self.temp(pi.make(it.idx, z3.Select(i.get(t, 'val'), it.idx)))
        return tmp

    def iter_op(self, op, a, b):
        if a.kind == 'vec':
            x, y = a.idx, b.idx
            if op == '-':
                return x - y
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                    '>': lambda: x > y, '>=': lambda: x >= y}[op]()
        r = Or(And(a.end, b.end), And(Not(a.end), Not(b.end), a.idx == b.idx))
        return r if op == '==' else Not(r)


class NotLV(Exception):
    pass


class NotLV2(NotLV):
    def __init__(self, v):
        self.v = v


def simp_bool(r):
    # If(a, b, False) -> And(a, b); If(a, True, b) -> Or(a, b)
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE and r.sort() == z3.BoolSort():
        c, a, b = r.arg(0), r.arg(1), r.arg(2)
        if z3.is_false(b):
            return And(c, a)
        if z3.is_true(a):
            return Or(c, b)
    return r


def realval(v, w=64):
    """the exact value of a floating literal (its binary value, not its decimal spelling)"""
    from fractions import Fraction
    import struct
    x = float(v)
    if w == 32:
        x = struct.unpack('<f', struct.pack('<f', x))[0]
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)

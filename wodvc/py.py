"""Contract-based VC generator for Python functions, over the ast of the current source.

A function is executed symbolically path by path: every branch is a recorded decision and
the function is re-executed for each sequence of decisions.  Loops are cut at invariants
(loops over concrete sequences are unrolled), calls go through contracts, models of the
builtins / numpy / protobuf, or are executed from their real body.  Lists, arrays and
messages are sequences and functions of their indices, so elementwise numpy code becomes
first-order terms without bounds on any shape.
"""
import ast
from fractions import Fraction
import z3
from .cxxsorts import Sorts, Unsupported, STR, OPQ
from .cxx import And, Or, Not, Implies, If, Ob, TRUE, FALSE, simp, is_true, is_false
from .cxxmodels import forall, CAT, ITEXT, strcat

I0, I1 = z3.IntVal(0), z3.IntVal(1)
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class BindError(Exception):
    pass


# ------------------------------------------------------------------ values
class Seq:
    """a list: length and element function"""
    def __init__(self, n, at, arrlike=False):
        self.n, self._at = (z3.IntVal(n) if isinstance(n, int) else n), at

    def __getitem__(self, i):
        return self._at(z3.IntVal(i) if isinstance(i, int) else i)


class EmptyElem(Exception):
    pass


def empty():
    def no(i):
        raise EmptyElem()
    return Seq(I0, no)


class Arr:
    """a numpy array: shape and element function; deps = cells it is a view of"""
    def __init__(self, shape, f, dt, deps=()):
        self.shape = [z3.IntVal(s) if isinstance(s, int) else s for s in shape]
        self.f, self.dt, self.deps = f, dt, tuple(deps)

    def __call__(self, *i):
        assert len(i) == len(self.shape), 'rank'
        return self.f(*[z3.IntVal(x) if isinstance(x, int) else x for x in i])

    @property
    def n(self):
        return self.shape[0]

    @property
    def rank(self):
        return len(self.shape)

    def sort(self):
        return {'int': INT, 'real': REAL, 'bool': BOOL, 'str': STR}[self.dt]


class Pro:
    """a protobuf message: lazily read fields with an overlay of writes"""
    def __init__(self, name, getter, over=None):
        self.name, self.getter, self.over, self.cache = name, getter, over or {}, {}

    def __getitem__(self, f):
        if f in self.over:
            return self.over[f]
        if f not in self.cache:
            self.cache[f] = self.getter(f)
        return self.cache[f]

    def set(self, f, v):
        return Pro(self.name, self.getter, dict(self.over, **{f: v}))


class Enum:
    def __init__(self, cls, t):
        self.cls, self.t = cls, t


class Cell:
    """a mutable object"""
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'Cell%d' % self.i


class Obj:
    """instance of a class of the program"""
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Dict:
    """a dict with concrete keys"""
    def __init__(self, items):
        self.items = items


class SetV:
    def __init__(self, mem, sort, items=None):
        self.mem, self.sort, self.items = mem, sort, items


class Ref:
    """a field of a mutable message"""
    def __init__(self, cell, path):
        self.cell, self.path = cell, path


class Fn:
    def __init__(self, node, env, mod, bound=None, qual=None):
        self.node, self.env, self.mod, self.bound, self.qual = node, env, mod, bound, qual or node.name


class Bi:
    """a builtin, a library function or a module, by dotted name"""
    def __init__(self, name):
        self.name = name


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Wrap:
    """enumerate / zip / reversed view used by for"""
    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


class Opq:
    def __init__(self, what, parts=()):
        self.what, self.parts = what, parts


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Raise(Exception):
    def __init__(self, kind):
        self.kind = kind


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Stop(Exception):
    """the path ends at a loop cut"""


class Restart(Exception):
    pass


def term(v, S=None):
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        f = Fraction(v)
        return z3.RealVal(str(f))
    if isinstance(v, str) and S is not None:
        return S.lit(v)
    raise Unsupported('not a term: %r' % (v,))


def leaves(x):
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return leaves(x.arg(1)) + leaves(x.arg(2))
    return [x]


def cint(t):
    """the integer, when concrete"""
    if isinstance(t, bool) or isinstance(t, int):
        return int(t)
    if isinstance(t, z3.ExprRef):
        t = simp(t)
        if z3.is_int_value(t):
            return t.as_long()
    return None


def conc(v):
    """python value of a term when it is a literal"""
    if isinstance(v, z3.ExprRef):
        s = simp(v)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return v


class PyProgram:
    def __init__(self, root, protos):
        self.root, self.pj, self.mods = root, protos, {}
        self.messages, self.enums = protos['messages'], protos['enums']

    def mod(self, path):
        if path not in self.mods:
            with open('%s/%s' % (self.root, path)) as f:
                src = f.read()
            self.mods[path] = Module(path, ast.parse(src))
        return self.mods[path]

    def message(self, name):
        r = [k for k in self.messages if k == name or k.endswith('::' + name)]
        return r[0] if len(r) == 1 else None

    def enum(self, name):
        r = [k for k in self.enums if k == name or k.endswith('::' + name)]
        return r[0] if len(r) == 1 else None


class Module:
    def __init__(self, path, tree):
        self.path, self.tree = path, tree
        self.names = {}
        for s in tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.names[s.name] = s
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.names[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.names[a.asname or a.name.split('.')[0]] = Bi(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.names[a.asname or a.name] = Bi((s.module or '') + '.' + a.name)

    def find(self, qual):
        body, node = self.tree.body, None
        for p in qual.split('.'):
            node = next((s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p), None)
            if node is None:
                raise BindError('no function %s in %s' % (qual, self.path))
            body = node.body
        return node


class PyContract:
    """requires(E, A) -> goals; result: type; ensures(E, A, r) -> facts; raises(E, A) -> condition"""
    def __init__(self, params, result=None, requires=None, ensures=None, raises=None, make=None):
        self.params, self.result, self.requires, self.ensures, self.raises, self.make = params, result, requires, ensures, raises, make


class L:
    """what an invariant sees"""
    def __init__(self, E, env, heap, k, n, item=None):
        self.E, self.env, self.heap, self.k, self.n = E, env, heap, k, n

    def raw(self, name):
        if name not in self.env:
            raise BindError('no local %s' % name)
        return self.env[name]

    def v(self, name):
        v = self.raw(name)
        return self.E.val(v, self.heap)

    def has(self, name):
        return name in self.env


class Engine:
    def __init__(self, prog, opts=None):
        self.P, self.opts = prog, dict(strings=True, **(opts or {}))
        self.S = Sorts({}, {}, prog.enums, {}, {})
        self.fns, self.assumed = {}, set()
        self.modsets = {}
        self.reset()

    # ---- bookkeeping
    def reset(self):
        self.n, self.cells = 0, 0
        self.heap, self.versions, self.frozen = {}, {}, set()
        self.path, self.facts = [], []
        self.depth = 0
        self.callstack = []
        self.constcache = {}

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def freshf(self, name, *sorts):
        self.n += 1
        return z3.Function('%s!%d' % (name, self.n), *sorts) if len(sorts) > 1 else None

    def func(self, name, *sorts):
        return z3.Function(name, *sorts)

    def oblige(self, name, goal, kind='safety', line=None):
        if is_true(goal):
            self.trivial += 1
            return
        if self.recording():
            self.obs.append(Ob(name, list(self.facts) + list(self.path), goal, kind, line, self.label))
        self.path.append(goal)

    def recording(self):
        return len(self.taken) >= self.record_from

    def assume(self, c):
        if not is_true(c):
            self.path.append(c)

    def fact(self, c):
        self.facts.append(c)

    def decide(self, options=2):
        """next decision of this run"""
        i = len(self.taken)
        d = self.plan[i] if i < len(self.plan) else 0
        self.taken.append(d)
        self.width.append(options)
        return d

    def branch(self, c, line=None):
        if isinstance(c, bool):
            return c
        c = simp(c) if z3.is_const(c) or True else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self.decide()
        self.path.append(c if d == 0 else Not(c))
        if not self.feasible():
            raise Stop()
        return d == 0

    def feasible(self):
        key = tuple(self.taken)
        if key in self.feas:
            return self.feas[key]
        s = z3.Solver()
        s.set('timeout', 300)
        for f in self.path:
            if not z3.is_quantifier(f):
                s.add(f)
        r = s.check() != z3.unsat
        self.feas[key] = r
        return r

    # ---- cells
    def alloc(self, payload):
        c = Cell(self.cells)
        self.cells += 1
        self.heap[c.i] = payload
        self.versions[c.i] = 0
        return c

    def store(self, c, payload):
        if c.i in self.frozen:
            raise Unsupported('mutation of an object that was put into a container')
        p = self.heap[c.i]
        if isinstance(p, Arr) and p.deps:
            raise Unsupported('mutation through a view')
        if isinstance(p, Arr) and isinstance(payload, Arr) and not (len(p.shape) == len(payload.shape) and all(a is b or simp(a).eq(simp(b)) for a, b in zip(p.shape, payload.shape))):
            raise Unsupported('an array changes its shape in place')
        self.heap[c.i] = payload
        self.versions[c.i] += 1

    def val(self, v, heap=None):
        heap = self.heap if heap is None else heap
        if isinstance(v, Cell):
            p = heap[v.i]
            if isinstance(p, Arr) and heap is self.heap:
                for c, ver in p.deps:
                    if self.versions[c] != ver:
                        raise Unsupported('a view of an array that was modified')
            return p
        if isinstance(v, Ref):
            p = heap[v.cell.i]
            for f in v.path:
                p = p[f]
            return p
        return v

    def snap(self, v):
        """the value to put into a container"""
        if isinstance(v, Cell):
            p = self.val(v)
            if isinstance(p, (Seq, Arr, Pro)):
                self.frozen.add(v.i)
                return p
            return v
        if isinstance(v, Ref):
            return self.val(v)
        if isinstance(v, (bool, int, float, str)):
            return v
        return v

    def hold(self, v):
        """the value to bind to a variable"""
        if isinstance(v, (Seq, Arr, SetV, Dict)):
            return self.alloc(v)
        return v

    # ---- symbolic inputs
    def mk(self, ty, name, idx=()):
        """a symbolic value of a type as functions of the indices"""
        if callable(ty):
            return ty(self, name, idx)
        prims = {'int': INT, 'real': REAL, 'bool': BOOL, 'str': STR}
        if isinstance(ty, str) and ty in prims:
            return self.uf(name, prims[ty], idx)
        if ty == 'opaque':
            return Opq(name)
        if isinstance(ty, tuple):
            k = ty[0]
            if k == 'list':
                n = self.uf('%s.len%s' % (name, len(idx) or ''), INT, idx)
                self.nonneg(n, idx)
                return Seq(n, lambda i: self.mk(ty[1], name, idx + (i,)))
            if k == 'nd':
                shape = []
                for d, x in enumerate(ty[2]):
                    if x is None:
                        x = self.uf('%s.shape%d' % (name, d), INT, idx)
                        self.nonneg(x, idx)
                    elif isinstance(x, str):
                        x = z3.Int(x)
                        self.fact(x >= 0)
                    elif callable(x):
                        x = x(*idx)
                    shape.append(x)
                return Arr(shape, lambda *i: self.uf(name, prims[ty[1]], idx + i), ty[1])
            if k == 'proto':
                return self.proto(ty[1], name, idx)
            if k == 'tuple':
                return tuple(self.mk(t, '%s.%d' % (name, j), idx) for j, t in enumerate(ty[1:]))
            if k == 'enum':
                return Enum(ty[1], self.uf(name, INT, idx))
            if k == 'const':
                return ty[1]
        raise Unsupported('type %r' % (ty,))

    def uf(self, name, sort, idx):
        if not idx:
            return z3.Const(name, sort)
        return z3.Function(name, *([INT] * len(idx)), sort)(*idx)

    def nonneg(self, n, idx):
        if self.quantified(idx):
            vs = [z3.Int('nn!%d' % j) for j in range(len(idx))]
            f = n.decl()
            if ('nn', f.name()) not in self.constcache:
                self.constcache[('nn', f.name())] = 1
                t = f(*vs) if vs else f()
                self.fact(forall(vs, t >= 0, [t]) if vs else t >= 0)

    def quantified(self, idx):
        return True

    def proto(self, name, base, idx=()):
        full = self.P.message(name)
        if full is None:
            raise Unsupported('message %s' % name)
        fs = {f['name']: f for f in self.P.messages[full]['fields']}

        def get(f):
            if f.startswith('has_') and f not in fs:
                return self.uf(base + '.' + f, BOOL, idx)
            d = fs[f]
            return self.mk(('list', self.ftype(d)) if d['repeated'] else self.ftype(d), base + '.' + f, idx)
        return Pro(full, get)

    def ftype(self, d):
        k = d['desc']['k']
        if k in ('int', 'enum'):
            return 'int'
        if k == 'real':
            return 'real'
        if k == 'bool':
            return 'bool'
        if d['desc'].get('proto'):
            return ('proto', d['ctype'])
        return 'str'

    def default_proto(self, full):
        fs = {f['name']: f for f in self.P.messages[full]['fields']}

        def get(f):
            if f.startswith('has_') and f not in fs:
                return FALSE
            d = fs[f]
            if d['repeated']:
                return empty()
            t = self.ftype(d)
            if isinstance(t, tuple):
                return self.default_proto(d['ctype'])
            dv = d.get('default')
            if t == 'str':
                return dv if isinstance(dv, str) else ''
            if t == 'bool':
                return bool(dv)
            if t == 'real':
                return float(dv or 0)
            return int(dv or 0)
        return Pro(full, get)

    # ---- merging
    def ite(self, c, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(c, z3.ExprRef):
            s = simp(c)
            if z3.is_true(s):
                return a
            if z3.is_false(s):
                return b
        if isinstance(a, Seq) and isinstance(b, Seq):
            return Seq(If(c, a.n, b.n), lambda i: self.ite2(c, lambda: a[i], lambda: b[i]))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
            dt = a.dt if a.dt == b.dt else 'real'
            return Arr([x if x.eq(y) else If(c, x, y) for x, y in zip(a.shape, b.shape)], lambda *i: If(c, self.num(a(*i), dt), self.num(b(*i), dt)), dt)
        if isinstance(a, Pro) and isinstance(b, Pro) and a.name == b.name:
            return Pro(a.name, lambda f: self.ite(c, a[f], b[f]))
        if isinstance(a, Enum) and isinstance(b, Enum) and a.cls == b.cls:
            return Enum(a.cls, If(c, a.t, b.t))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if a is b:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a
        x, y = self.unify(a, b)
        return x if x.eq(y) else If(c, x, y)

    def ite2(self, c, fa, fb):
        s = simp(c)
        if z3.is_true(s):
            return fa()
        if z3.is_false(s):
            return fb()
        try:
            a = fa()
        except EmptyElem:
            return fb()
        try:
            b = fb()
        except EmptyElem:
            return a
        return self.ite(c, a, b)

    def unify(self, a, b):
        a, b = term(a, self.S), term(b, self.S)
        if a.sort() == b.sort():
            return a, b
        if {a.sort(), b.sort()} <= {INT, REAL, BOOL}:
            if a.sort() == BOOL:
                a = If(a, I1, I0)
            if b.sort() == BOOL:
                b = If(b, I1, I0)
            if a.sort() != b.sort():
                a = z3.ToReal(a) if a.sort() == INT else a
                b = z3.ToReal(b) if b.sort() == INT else b
            return a, b
        raise Unsupported('mixed sorts %s and %s' % (a.sort(), b.sort()))

    def num(self, t, dt):
        t = term(t, self.S)
        if dt == 'real' and t.sort() != REAL:
            t = If(t, I1, I0) if t.sort() == BOOL else t
            return z3.ToReal(t) if not z3.is_int_value(t) else z3.RealVal(t.as_long())
        if dt == 'int' and t.sort() == BOOL:
            return If(t, I1, I0)
        return t

    def havoc(self, tpl, name, idx=()):
        """a fresh value of the shape of a template"""
        tpl = self.val(tpl)
        if isinstance(tpl, Seq):
            n = self.fvar(name + '.len', INT, idx)
            self.nonneg(n, idx)
            nm = name
            sub = []

            def at(i):
                if not sub:
                    # the naming is decided once, so that all reads agree
                    sub.append(self.schema(tpl, nm, len(idx)))
                return sub[0](idx + (i,))
            at(I0) if self.elem(tpl) is not None else None
            return Seq(n, at) if self.elem(tpl) is not None else Seq(n, empty()._at)
        if isinstance(tpl, Arr):
            shape = []
            for d, x in enumerate(tpl.shape):
                if cint(x) is not None:
                    shape.append(x)
                else:
                    v = self.fvar('%s.shape%d' % (name, d), INT, idx)
                    self.nonneg(v, idx)
                    shape.append(v)
            f = self.freshf(name, *([INT] * (len(idx) + tpl.rank)), tpl.sort())
            return Arr(shape, lambda *i: f(*idx, *i), tpl.dt)
        if isinstance(tpl, Enum):
            return Enum(tpl.cls, self.fvar(name, INT, idx))
        if isinstance(tpl, tuple):
            return tuple(self.havoc(x, '%s.%d' % (name, j), idx) for j, x in enumerate(tpl))
        if isinstance(tpl, Pro):
            fs = {f['name']: f for f in self.P.messages[tpl.name]['fields']}
            self.n += 1
            return self.proto(tpl.name, '%s!%d' % (name, self.n), idx)
        if isinstance(tpl, SetV):
            if idx:
                raise Unsupported('set in a container')
            return SetV(self.fresh(name, z3.ArraySort(tpl.sort, BOOL)), tpl.sort)
        if tpl is None or isinstance(tpl, (Opq, Fn, Bi)):
            return tpl
        return self.fvar(name, term(tpl, self.S).sort(), idx)

    def schema(self, tpl, name, depth):
        """the element function of a havocked sequence: names decided now, indices later"""
        self.n += 1
        base = '%s!%d' % (name, self.n)
        E = self

        def build(t, nm):
            t = E.val(t)
            if isinstance(t, Seq):
                e = E.elem(t)
                sub = build(e, nm + '.e') if e is not None else None

                def mkseq(idx):
                    n = E.uf(nm + '.len', INT, idx)
                    E.nonneg(n, idx)
                    return Seq(n, (lambda i: sub(idx + (i,))) if sub else empty()._at)
                return mkseq
            if isinstance(t, Arr):
                def mkarr(idx):
                    shape = []
                    for d, x in enumerate(t.shape):
                        if cint(x) is not None:
                            shape.append(x)
                        else:
                            v = E.uf('%s.shape%d' % (nm, d), INT, idx)
                            E.nonneg(v, idx)
                            shape.append(v)
                    return Arr(shape, lambda *i: E.uf(nm, t.sort(), idx + i), t.dt)
                return mkarr
            if isinstance(t, Enum):
                return lambda idx: Enum(t.cls, E.uf(nm, INT, idx))
            if isinstance(t, tuple):
                subs = [build(x, '%s.%d' % (nm, j)) for j, x in enumerate(t)]
                return lambda idx: tuple(s(idx) for s in subs)
            if isinstance(t, Pro):
                return lambda idx: E.proto(t.name, nm, idx)
            if isinstance(t, Opq):
                return lambda idx: t
            s = term(t, E.S).sort()
            return lambda idx: E.uf(nm, s, idx)
        return build(self.elem(tpl), base)

    def elem(self, seq):
        try:
            return self.val(seq[self.fresh('elem', INT)])
        except EmptyElem:
            return None

    def fvar(self, name, sort, idx):
        self.n += 1
        return self.uf('%s!%d' % (name, self.n), sort, idx)

    # ---- verification of one function
    def verify(self, mod, qual, label, params, requires=None, ensures=None, raises=None, loops=None, callees=None, this=None, frame=True):
        self.label, self.loopspec, self.callees = label, loops or {}, callees or {}
        self.mod = self.P.mod(mod)
        node = self.mod.find(qual)
        loopnodes = [x for x in ast.walk(node) if isinstance(x, (ast.For, ast.While))]
        loopnodes.sort(key=lambda x: (x.lineno, x.col_offset))
        self.loopno = {id(x): i for i, x in enumerate(loopnodes)}
        self.root = node
        for attempt in range(100):
            try:
                self._explore(node, label, params, requires, ensures, raises, frame, this)
                return self.obs
            except Restart:
                continue
        raise Unsupported('the set of variables changed by a loop does not stabilise')

    def _explore(self, node, label, params, requires, ensures, raises, frame, this):
        self.obs, self.trivial, self.feas, self.nret = [], 0, {}, 0
        self.finals = []
        plan, first = [], 0
        for _ in range(3000):
            self.reset()
            self.plan, self.taken, self.width, self.record_from = plan, [], [], first
            self.label = label
            self.run_path(node, params, requires, ensures, raises, frame, this)
            # next plan
            t, w = self.taken, self.width
            while t and t[-1] + 1 >= w[-1]:
                t.pop(), w.pop()
            if not t:
                return
            plan = t[:-1] + [t[-1] + 1]
            first = len(plan)
        raise Unsupported('too many paths')

    def run_path(self, node, params, requires, ensures, raises, frame, this):
        env = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        entry = {}
        for x in names:
            if x in params:
                v = self.mk(params[x], x) if not isinstance(params[x], tuple) or params[x][0] != 'const' else params[x][1]
            elif x == 'self' and this is not None:
                v = self.mk(this, 'self')
            else:
                v = self.default(node, x)
            if isinstance(v, (Seq, Arr, Pro)):
                v = self.alloc(v)
            env[x] = v
            entry[x] = self.val(v)
        extra = set(params) - set(names)
        if extra:
            raise BindError('no parameter %s' % sorted(extra))
        self.A = Args(entry)
        for g in (requires(self, self.A) if requires else []):
            self.assume(g)
        pcells = {k: (v, self.heap[v.i]) for k, v in env.items() if isinstance(v, Cell)}
        self.envroot = env
        out = None
        try:
            self.block(node.body, env)
            out = ('ret', None)
        except Ret as r:
            out = ('ret', r.v)
        except Raise as r:
            out = ('raise', r.kind)
        except Stop:
            return
        cond = raises(self, self.A) if raises else FALSE
        if isinstance(cond, dict):
            kinds, cond = cond, Or(*cond.values())
        else:
            kinds = None
        if out[0] == 'raise':
            ok = kinds[out[1]] if kinds and out[1] in kinds else cond if not kinds else FALSE
            self.oblige('raises %s only when specified' % out[1], ok, 'raises')
        else:
            self.oblige('raises when specified', Not(cond), 'raises')
            r = self.val(out[1])
            if isinstance(r, tuple):
                r = tuple(self.val(x) for x in r)
            post = Args({k: self.val(v) for k, v in env.items() if k in entry})
            if frame:
                for k, (c, p) in pcells.items():
                    save = list(self.path)
                    self.oblige('the caller\'s %s is not modified' % k, z3.BoolVal(self.heap[c.i] is p), 'frame')
                    self.path = save
            self.env = env
            for nm, g in (ensures(self, self.A, r, post) if ensures else []):
                self.oblige_keep(nm, g)
            self.finals.append((list(self.facts), list(self.path)))
        self.nret += 1

    def oblige_keep(self, name, goal):
        """a postcondition: not assumed by the others"""
        p = list(self.path)
        self.oblige(name, goal, 'ensures')
        self.path = p

    def induct(self, name, n, P, pats=None):
        """P(0) and P(i) => P(i+1) for 0 <= i < n are obligations; P(i) for 0 <= i <= n becomes known"""
        self.oblige_keep(name + ' (base)', P(I0))
        i = self.fresh('ind', INT)
        p = list(self.path)
        self.path += [i >= 0, i < n, P(i)]
        self.oblige_keep(name + ' (step)', P(simp(i + 1)))
        self.path = p
        v = z3.Int('ind!v')
        self.assume(forall([v], Implies(And(v >= 0, v <= n), P(v)), pats(v) if pats else None))

    def default(self, node, x):
        a = node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([y.arg for y in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update({y.arg: e for y, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None})
        if x not in d:
            raise BindError('parameter %s has no type and no default' % x)
        return self.ev(d[x], {})

    # ---- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s line %d' % (type(s).__name__, s.lineno))
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value else None)

    def s_Raise(self, s, env):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        raise Raise(e.id if isinstance(e, ast.Name) else e.attr)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Assert(self, s, env):
        if not self.branch(self.truth(self.ev(s.test, env))):
            raise Raise('AssertionError')

    def s_FunctionDef(self, s, env):
        env[s.name] = Fn(s, env, self.mod)

    def s_Import(self, s, env):
        for a in s.names:
            env[a.asname or a.name.split('.')[0]] = Bi(a.name)

    def s_If(self, s, env):
        if self.branch(self.truth(self.ev(s.test, env))):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        old = self.ev(ast.copy_location(self.load(s.target), s.target), env)
        new = self.ev(s.value, env)
        ov = self.val(old)
        if isinstance(old, Cell) and isinstance(ov, Seq) and isinstance(s.op, ast.Add):
            self.store(old, self.concat(ov, self.aslist(new)))
            return
        if isinstance(old, Cell) and isinstance(ov, Arr):
            r = self.binop(s.op, old, new)
            self.store(old, Arr(ov.shape, lambda *i: self.num(r(*i), ov.dt), ov.dt))
            return
        self.assign(s.target, self.binop(s.op, old, new), env)

    def load(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if self.opts.get('name_arrays') and isinstance(v, Arr) and v.rank and not v.deps and v.dt == 'real':
                from . import pynp
                f = pynp.named(self, v)
                v = Arr(v.shape, lambda *i: f(*i), v.dt)        # large element terms are shared
            env[t.id] = self.hold(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, t.lineno)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.setitem(base, t.slice, v, env, t.lineno)
        else:
            raise Unsupported('assignment target line %d' % t.lineno)

    def unpack(self, v, n):
        v = self.val(v)
        if isinstance(v, tuple):
            if len(v) != n:
                raise Raise('ValueError')
            return v
        if isinstance(v, Seq) and cint(v.n) == n:
            return [v[j] for j in range(n)]
        if isinstance(v, Arr) and v.rank == 1 and cint(v.n) == n:
            return [v(j) for j in range(n)]
        raise Unsupported('unpacking')

    def setattr(self, base, attr, v, line):
        if isinstance(base, Cell) and isinstance(self.heap[base.i], Obj):
            o = self.heap[base.i]
            self.store(base, Obj(o.cls, dict(o.fields, **{attr: self.hold(v)})))
            return
        if isinstance(base, (Cell, Ref)):
            c, path = (base, ()) if isinstance(base, Cell) else (base.cell, base.path)
            self.store(c, self.upd(self.heap[c.i], path + (attr,), self.snap(v)))
            return
        raise Unsupported('attribute assignment line %s' % line)

    def upd(self, p, path, v):
        if not isinstance(p, Pro):
            raise Unsupported('write into %r' % p)
        f = path[0]
        d = {x['name']: x for x in self.P.messages[p.name]['fields']}.get(f)
        if d is None:
            raise Unsupported('field %s of %s' % (f, p.name))
        if len(path) == 1:
            t = self.ftype(d)
            if not d['repeated'] and t == 'real' and not isinstance(v, (Pro, Seq)):
                v = self.num(v, 'real')
            q = p.set(f, v)
        else:
            q = p.set(f, self.upd(p[f], path[1:], v))
        return q.set('has_' + f, TRUE) if not d['repeated'] else q

    # ---- loops
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        itv = self.val(it)
        if s.orelse:
            raise Unsupported('for/else')
        n, at = self.iteration(itv)
        c = cint(n)
        spec = self.loopspec.get(self.loopno.get(id(s)))
        if c is not None and c <= 64 and spec is None:
            for j in range(c):
                self.assign(s.target, at(z3.IntVal(j)), env)
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cont:
                    pass
            return
        if spec is None:
            raise Unsupported('loop without invariant line %d' % s.lineno)
        self.cut(s, env, spec, n, lambda k: self.assign(s.target, at(k), env), it)

    def s_While(self, s, env):
        if s.orelse:
            raise Unsupported('while/else')
        spec = self.loopspec.get(self.loopno.get(id(s)))
        if spec is None:
            raise Unsupported('loop without invariant line %d' % s.lineno)
        self.cut(s, env, spec, None, None, None)

    def iteration(self, v):
        v = self.val(v)
        if isinstance(v, tuple):
            return z3.IntVal(len(v)), lambda i: v[cint(i)] if cint(i) is not None else self.chain(v, i)
        if isinstance(v, Seq):
            return v.n, lambda i: v[i]
        if isinstance(v, Range):
            lo, hi = term(v.lo), term(v.hi)
            if v.step == 1:
                return simp(If(hi > lo, hi - lo, I0)), lambda i: simp(lo + i)
            if v.step == -1:
                return simp(If(lo > hi, lo - hi, I0)), lambda i: simp(lo - i)
            raise Unsupported('range step')
        if isinstance(v, Arr):
            if v.rank == 1:
                return v.n, lambda i: v(i)
            return v.n, lambda i: Arr(v.shape[1:], lambda *j: v(i, *j), v.dt, v.deps)
        if isinstance(v, Wrap):
            ps = [self.iteration(p) for p in v.parts]
            if v.kind == 'enumerate':
                return ps[0][0], lambda i: (i, ps[0][1](i))
            if v.kind == 'zip':
                n = ps[0][0]
                for m, _ in ps[1:]:
                    n = simp(If(m < n, m, n))
                return n, lambda i: tuple(p[1](i) for p in ps)
            if v.kind == 'reversed':
                return ps[0][0], lambda i: ps[0][1](simp(ps[0][0] - 1 - i))
        if isinstance(v, Dict):
            ks = tuple(k for k, _ in v.items)
            return z3.IntVal(len(ks)), lambda i: ks[cint(i)]
        raise Unsupported('iteration over %s' % type(v).__name__)

    def chain(self, items, i):
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = self.ite(i == j, items[j], r)
        return r

    def cut(self, s, env, spec, n, bind, it):
        no = self.loopno[id(s)]
        at = tuple(self.taken)
        ms = self.modsets.setdefault((no, at), {})

        def inv(k):
            return spec(self, L(self, env, self.heap, k, n))
        for nm, g in inv(I0):
            p = list(self.path)
            self.oblige('loop %d entry: %s' % (no, nm), g, 'invariant', s.lineno)
            self.path = p
        # everything the body changes becomes unknown
        snap_env = dict(env)
        for key, tpl in sorted(ms.items(), key=str):
            if key[0] == 'var':
                if key[1] in env or tpl is not None:
                    env[key[1]] = self.hold(self.havoc(tpl, key[1]))
            elif key[1] in self.heap:
                old = self.heap[key[1]]
                new = self.havoc(tpl, 'cell%d' % key[1])
                if isinstance(new, Arr) and isinstance(old, Arr) and len(old.shape) == len(new.shape):
                    new = Arr(old.shape, new.f, new.dt, new.deps)      # in-place updates keep the shape (see store)
                self.heap[key[1]] = new
                self.versions[key[1]] += 1
        k = self.fresh('iter', INT) if n is not None else None
        base_env, base_heap = dict(env), dict(self.heap)
        mode = self.decide()
        if n is not None:
            self.assume(And(k >= 0, k <= n) if mode == 1 else And(k >= 0, k < n))
        if mode == 1:
            kk = n if n is not None else None
            if n is not None:
                self.path.pop()
                self.assume(n >= 0)
            for nm, g in inv(kk):
                self.assume(g)
            if n is None and self.branch(self.truth(self.ev(s.test, env))):
                raise Stop()
            return
        for nm, g in inv(k):
            self.assume(g)
        if n is None and not self.branch(self.truth(self.ev(s.test, env))):
            raise Stop()
        if bind:
            bind(k)
        tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set()
        broke = False
        try:
            try:
                self.block(s.body, env)
            except Cont:
                pass
        except Brk:
            broke = True
        except (Ret, Raise):
            raise
        try:
            self.changed(ms, base_env, base_heap, env, tgt)
        except Restart:
            for q in [q for q in self.modsets if len(q[1]) > len(at) and q[1][:len(at)] == at]:
                del self.modsets[q]            # cells are numbered anew
            raise
        if it is not None and isinstance(it, Cell) and ('cell', it.i) in ms:
            raise Unsupported('the iterated list is changed in the loop')
        if broke:
            return
        k1 = k + 1 if n is not None else None
        for nm, g in inv(k1):
            p = list(self.path)
            self.oblige('loop %d preserved: %s' % (no, nm), g, 'invariant', s.lineno)
            self.path = p
        raise Stop()

    def changed(self, ms, base_env, base_heap, env, tgt):
        new = False
        for x, v in env.items():
            if x in base_env and not self.same(base_env[x], v) and ('var', x) not in ms:
                ms[('var', x)] = self.val(v) if not isinstance(v, Cell) else self.val(v)
                new = True
            elif x not in base_env and x not in tgt and False:
                pass
        for c, p in self.heap.items():
            if c in base_heap and base_heap[c] is not p:
                if ('cell', c) not in ms or (isinstance(ms[('cell', c)], Seq) and self.elem(ms[('cell', c)]) is None and isinstance(p, Seq) and self.elem(p) is not None):
                    ms[('cell', c)] = p
                    new = True
        if new:
            raise Restart()

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, (int, float, str, bool)) and isinstance(b, (int, float, str, bool)):
            return type(a) == type(b) and a == b
        return False

    # ---- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s line %d' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        if e.value is Ellipsis or isinstance(e.value, (bool, int, float, str, bytes)) or e.value is None:
            return e.value
        raise Unsupported('constant %r' % (e.value,))

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        return self.glob(e.id, e.lineno)

    def glob(self, name, line=None, mod=None):
        mod = mod or self.mod
        x = mod.names.get(name)
        if x is None:
            import builtins
            if hasattr(builtins, name):
                return Bi(name)
            raise Unsupported('name %s line %s' % (name, line))
        if isinstance(x, Bi):
            return x
        if isinstance(x, ast.FunctionDef):
            return Fn(x, {}, mod)
        if isinstance(x, ast.ClassDef):
            return Bi('class:' + name)
        if name not in self.constcache:
            v = self.ev(x, {})
            self.constcache[name] = self.hold(v)
        return self.constcache[name]

    def e_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_List(self, e, env):
        return self.listof([self.snap(self.ev(x, env)) for x in e.elts])

    def listof(self, vs):
        s = empty()
        for v in vs:
            s = self.append(s, v)
        return s

    def append(self, s, v):
        n = s.n
        return Seq(simp(n + 1), lambda i: self.ite2(i == n, lambda: v, lambda: s[i]))

    def concat(self, a, b):
        an = a.n
        return Seq(simp(an + b.n), lambda i: self.ite2(i < an, lambda: a[i], lambda: b[simp(i - an)]))

    def aslist(self, v):
        v = self.val(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return self.listof([self.snap(x) for x in v])
        n, at = self.iteration(v)
        return Seq(n, at)

    def e_Set(self, e, env):
        vs = [term(self.ev(x, env), self.S) for x in e.elts]
        m = z3.K(vs[0].sort(), FALSE)
        for v in vs:
            m = z3.Store(m, v, TRUE)
        return SetV(m, vs[0].sort())

    def e_Dict(self, e, env):
        return Dict([(self.ev(k, env), self.hold(self.ev(v, env))) for k, v in zip(e.keys, e.values)])

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, env)
                if x.format_spec is not None:
                    return self.fresh('text', STR)
                parts.append(self.text(v))
        return self.cat(parts)

    def text(self, v):
        v = self.val(v)
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, z3.ExprRef) and v.sort() in (STR, INT):
            return v
        return self.fresh('text', STR)

    def cat(self, parts):
        ts = [self.S.lit(p) if isinstance(p, str) else p for p in parts]
        return strcat(self, ts)

    def e_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        return self.ev(e.body, env) if self.branch(c) else self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        isand = isinstance(e.op, ast.And)
        for j, x in enumerate(e.values):
            v = self.ev(x, env)
            if j == len(e.values) - 1:
                return v
            t = self.truth(v)
            b = self.branch(t)
            if b != isand:
                return v if not isinstance(self.val(v), z3.ExprRef) or self.val(v).sort() != BOOL else b
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else Not(t)
        w = self.val(v)
        if isinstance(e.op, ast.USub):
            if isinstance(w, Arr):
                return self.map1(w, lambda t: -t)
            if isinstance(w, (int, float)):
                return -w
            return -term(w)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(w, Arr) and w.dt == 'bool':
            return self.map1(w, Not)
        raise Unsupported('unary operator line %d' % e.lineno)

    def truth(self, v):
        v = self.val(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, Seq):
            return v.n != 0
        if isinstance(v, (Fn, Bi, Obj, Pro, Enum, Opq)):
            return True
        if isinstance(v, SetV):
            x = z3.Const('member!', v.sort)
            return z3.Exists([x], z3.Select(v.mem, x))
        if isinstance(v, Dict):
            return bool(v.items)
        if isinstance(v, z3.ExprRef):
            if v.sort() == BOOL:
                return v
            if v.sort() in (INT, REAL):
                return v != 0
            if v.sort() == STR:
                return v != self.S.lit('')
        raise Unsupported('truth of %s' % type(v).__name__)

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        out = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            c = self.compare(op, l, r, e.lineno)
            if isinstance(c, Arr):
                return c
            out = c if out is None else self.and2(out, c)
            l = r
        return out

    def and2(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return And(a, b)

    def compare(self, op, l, r, line=None):
        a, b = self.val(l), self.val(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                res = (a is None) == (b is None)
            elif isinstance(a, (Enum, bool)) and isinstance(b, (Enum, bool)):
                return self.compare(ast.Eq() if isinstance(op, ast.Is) else ast.NotEq(), a, b, line)
            else:
                raise Unsupported('is line %s' % line)
            return res if isinstance(op, ast.Is) else not res
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            return c if isinstance(op, ast.In) else ((not c) if isinstance(c, bool) else Not(c))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.equal(a, b)
            if isinstance(op, ast.Eq):
                return c
            return (not c) if isinstance(c, bool) else self.map1(c, Not) if isinstance(c, Arr) else Not(c)
        f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.bcast([a, b], lambda x, y: f(*self.unify(x, y)), 'bool')
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return f(a, b)
        if isinstance(a, (z3.ExprRef, int, float)) and isinstance(b, (z3.ExprRef, int, float)):
            x, y = self.unify(a, b)
            return f(x, y)
        raise Unsupported('comparison line %s' % line)

    def equal(self, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.bcast([a, b], lambda x, y: (lambda p: p[0] == p[1])(self.unify(x, y)), 'bool')
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, Enum) or isinstance(b, Enum):
            if isinstance(a, Enum) and isinstance(b, Enum):
                return (a.t == b.t) if a.cls == b.cls else False
            return False
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.and2(r, self.equal(x, y)) if not isinstance(r, bool) or r else False
            return r
        if isinstance(a, SetV) and isinstance(b, SetV):
            return a.mem == b.mem
        if isinstance(a, Seq) and isinstance(b, Seq):
            i = z3.Int('eq!%d' % self.depth)
            e = self.equal(a[i], b[i])
            return And(a.n == b.n, forall([i], Implies(And(i >= 0, i < a.n), e if not isinstance(e, bool) else z3.BoolVal(e))))
        if isinstance(a, (z3.ExprRef, int, float, str)) and isinstance(b, (z3.ExprRef, int, float, str)):
            ta, tb = term(a, self.S), term(b, self.S)
            if (ta.sort() == STR) != (tb.sort() == STR):
                return False
            x, y = self.unify(ta, tb)
            return x == y
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def contains(self, c, x):
        c = self.val(c)
        if isinstance(c, tuple):
            r = [self.equal(y, x) for y in c]
            if any(z is True for z in r):
                return True
            r = [z for z in r if z is not False]
            return Or(*r) if r else False
        if isinstance(c, SetV):
            return z3.Select(c.mem, term(x, self.S))
        if isinstance(c, Seq):
            n = cint(c.n)
            if n is not None and n <= 16:
                return self.contains(tuple(c[j] for j in range(n)), x)
            return z3.Select(self.members(c), term(x, self.S))
        if isinstance(c, Dict):
            return self.contains(tuple(k for k, _ in c.items), x)
        raise Unsupported('in %s' % type(c).__name__)

    def members(self, seq):
        """the set of the elements of a sequence of terms"""
        seq = self.val(seq)
        if getattr(seq, 'mset', None) is not None:
            return seq.mset
        x = self.val(seq[self.fresh('elem', INT)])
        s = term(x.t if isinstance(x, Enum) else x, self.S).sort()
        n = cint(seq.n)
        if n is not None and n <= 16:
            m = z3.K(s, FALSE)
            for j in range(n):
                m = z3.Store(m, term(seq[j], self.S), TRUE)
            seq.mset = m
            return m
        m = self.fresh('members', z3.ArraySort(s, BOOL))
        self.n += 1
        w = z3.Function('where!%d' % self.n, s, INT)
        y, i = z3.Const('mem!x', s), z3.Int('mem!i')
        self.fact(forall([y], Implies(z3.Select(m, y), And(w(y) >= 0, w(y) < seq.n, term(seq[w(y)], self.S) == y)), [z3.Select(m, y)]))
        t = term(seq[i], self.S)
        self.fact(forall([i], Implies(And(i >= 0, i < seq.n), z3.Select(m, t)), [t]))
        seq.mset = m
        return m

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e.lineno)

    def binop(self, op, l, r, line=None):
        a, b = self.val(l), self.val(r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arrop(op, a, b)
        if isinstance(op, ast.Add) and isinstance(a, Seq) and isinstance(b, Seq):
            return self.concat(a, b)
        if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(op, ast.Mult) and (isinstance(a, Seq) or isinstance(b, Seq)):
            s, k = (a, b) if isinstance(a, Seq) else (b, a)
            k = term(k)
            if cint(s.n) == 1:
                x = s[0]
                return Seq(simp(If(k > 0, k, I0)), lambda i: x)
            if cint(k) is not None:
                r = empty()
                for _ in range(cint(k)):
                    r = self.concat(r, s)
                return r
            raise Unsupported('repetition of a list')
        isstr = lambda x: isinstance(x, str) or isinstance(x, z3.ExprRef) and x.sort() == STR
        if isinstance(op, ast.Add) and (isstr(a) or isstr(b)):
            return self.cat([a, b])
        if isinstance(op, ast.Mod) and isstr(a):
            return self.fresh('text', STR)
        if isinstance(op, ast.Sub) and isinstance(a, SetV) and isinstance(b, SetV):
            return self.setop(a, b, lambda p, q: And(p, Not(q)))
        if isinstance(op, ast.BitXor) and isinstance(a, SetV) and isinstance(b, SetV):
            return self.setop(a, b, lambda p, q: p != q)
        if isinstance(op, ast.BitOr) and isinstance(a, SetV) and isinstance(b, SetV):
            return self.setop(a, b, lambda p, q: Or(p, q))
        if isinstance(op, ast.BitAnd) and isinstance(a, SetV) and isinstance(b, SetV):
            return self.setop(a, b, lambda p, q: And(p, q))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow}.get(type(op))
            if f:
                if f is o.truediv:
                    return z3.RealVal(str(Fraction(a) / Fraction(b)))
                return f(a, b)
        if isinstance(a, (z3.ExprRef, int, float)) and isinstance(b, (z3.ExprRef, int, float)):
            return self.arith(op, a, b, line)
        raise Unsupported('operator %s on %s, %s line %s' % (type(op).__name__, type(a).__name__, type(b).__name__, line))

    def setop(self, a, b, f):
        m = self.fresh('set', z3.ArraySort(a.sort, BOOL))
        x = z3.Const('set!x', a.sort)
        self.fact(forall([x], z3.Select(m, x) == f(z3.Select(a.mem, x), z3.Select(b.mem, x)), [z3.Select(m, x)]))
        self.fact(forall([x], z3.Select(m, x) == f(z3.Select(a.mem, x), z3.Select(b.mem, x)), [z3.Select(a.mem, x)]))
        return SetV(m, a.sort)

    def arith(self, op, a, b, line=None, guard=None):
        a, b = self.unify(a, b)
        if a.sort() == BOOL:
            a, b = If(a, I1, I0), If(b, I1, I0)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return self.mul(a, b)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if guard is None:
                self.oblige('divisor is not zero', b != 0, 'div', line)
        if isinstance(op, ast.Div):
            a, b = self.num(a, 'real'), self.num(b, 'real')
            return self.div(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if a.sort() == INT:
                cb = cint(b)
                if cb is None or cb <= 0:
                    if guard is None:
                        self.oblige('divisor is positive', b > 0, 'div', line)
                return a / b if isinstance(op, ast.FloorDiv) else a % b
            raise Unsupported('real floor division')
        if isinstance(op, ast.Pow):
            return self.power(self.num(a, 'real'), self.num(b, 'real'))
        raise Unsupported('operator %s line %s' % (type(op).__name__, line))

    def mul(self, a, b):
        """a product; with the option ufmul products of two unknown reals are opaque and commutative"""
        if not self.opts.get('ufmul') or a.sort() != REAL or any(z3.is_rational_value(simp(x)) for x in (a, b)):
            return a * b
        for x, y in ((a, b), (b, a)):
            x = simp(x)
            if z3.is_app_of(x, z3.Z3_OP_ITE) and all(z3.is_rational_value(z) for z in leaves(x)):
                return If(x.arg(0), self.mul(x.arg(1), y), self.mul(x.arg(2), y))
        f = z3.Function('times', REAL, REAL, REAL)
        if ('times',) not in self.constcache:
            self.constcache[('times',)] = 1
            x, y = z3.Reals('mul!x mul!y')
            self.fact(forall([x, y], f(x, y) == f(y, x), [f(x, y)]))
            self.fact(forall([x], And(f(x, x) >= 0, Implies(x != 0, f(x, x) > 0), Implies(x == 0, f(x, x) == 0)), [f(x, x)]))
            self.fact(forall([x, y], And(Implies(Or(x == 0, y == 0), f(x, y) == 0), Implies(And(x > 0, y > 0), f(x, y) > 0), Implies(And(x < 0, y > 0), f(x, y) < 0)), [f(x, y)]))
        return f(a, b)

    def div(self, a, b):
        """with opts ufdiv, quotients by unknowns stay opaque (their meaning is used by separate lemmas)"""
        if self.opts.get('ufdiv') and not z3.is_rational_value(simp(b)):
            return z3.Function('quotient', REAL, REAL, REAL)(a, b)
        return a / b

    def power(self, a, b):
        f = z3.Function('power', REAL, REAL, REAL)
        if ('power',) not in self.constcache:
            self.constcache[('power',)] = 1
            x, y = z3.Reals('pow!x pow!y')
            self.fact(forall([x, y], And(Implies(y == 0, f(x, y) == 1), Implies(And(x > 0, x <= 1, y >= 0), And(f(x, y) > 0, f(x, y) <= 1)),
                                         Implies(And(x > 0, x < 1, y > 0), f(x, y) < 1)), [f(x, y)]))
            self.assumed.add('pow(x, 0) = 1; 0 < pow(x, y) <= 1 for 0 < x <= 1 and y >= 0, < 1 if x < 1 and y > 0')
        return f(a, b)

    # ---- attributes, subscripts, calls
    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        return self.attr(v, e.attr, e.lineno)

    def attr(self, v, a, line=None):
        w = self.val(v)
        if isinstance(w, Bi):
            return self.biattr(w, a)
        if isinstance(w, Obj):
            if a in w.fields:
                return w.fields[a]
            cls = self.mod.names.get(w.cls)
            f = next((s for s in cls.body if isinstance(s, ast.FunctionDef) and s.name == a), None) if isinstance(cls, ast.ClassDef) else None
            if f is not None:
                return Fn(f, {}, self.mod, bound=v, qual=w.cls + '.' + a)
            raise Unsupported('attribute %s of %s' % (a, w.cls))
        if isinstance(w, Pro):
            fs = {x['name']: x for x in self.P.messages[w.name]['fields']}
            if a in fs:
                if isinstance(v, (Cell, Ref)) and (fs[a]['repeated'] or isinstance(self.ftype(fs[a]), tuple)):
                    c, path = (v, ()) if isinstance(v, Cell) else (v.cell, v.path)
                    return Ref(c, path + (a,))
                return w[a]
            return Method(v, a)
        if isinstance(w, Arr):
            if a == 'shape':
                return tuple(w.shape)
            if a == 'T' and w.rank == 2:
                return Arr(w.shape[::-1], lambda i, j: w(j, i), w.dt, self.viewdeps(v, w))
            if a == 'ndim':
                return w.rank
            if a == 'size' and w.rank == 1:
                return w.n
            return Method(v, a)
        if isinstance(w, Enum):
            if a == 'value':
                return w.t
            return Method(v, a)
        return Method(v, a)

    def viewdeps(self, v, w):
        if isinstance(v, Cell):
            return tuple(w.deps) + ((v.i, self.versions[v.i]),)
        return w.deps

    def biattr(self, w, a):
        name = w.name + '.' + a
        if w.name.startswith('class:'):
            cls = self.mod.names[w.name[6:]]
            if any(isinstance(b, ast.Attribute) and b.attr in ('Enum', 'IntEnum') for b in cls.bases):
                for s in cls.body:
                    if isinstance(s, ast.Assign) and s.targets[0].id == a:
                        if isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                            return Enum(cls.name, z3.IntVal(s.value.value))
                        names = [t.targets[0].id for t in cls.body if isinstance(t, ast.Assign)]
                        return Enum(cls.name, z3.IntVal(names.index(a)))
            raise Unsupported('class attribute %s' % name)
        # protobuf enum values
        parts = name.split('.')
        i = next((j for j, p in enumerate(parts) if p.endswith('_pb2')), None)
        if i is not None and len(parts) > i + 1:
            outer = '_'.join(parts[i + 1:-1])
            for en, vals in self.P.enums.items():
                short = en.split('::')[-1]
                if a in vals and (short.rsplit('_', 1)[0] == outer or short == outer or (outer == '' and '_' not in short)):
                    return vals[a]
        return Bi(name)

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        return self.getitem(v, e.slice, env, e.lineno)

    def slice_bounds(self, n, lo, hi):
        def norm(x, d):
            if x is None:
                return d
            x = term(x)
            c = cint(x)
            if c is not None and c < 0:
                return simp(If(n + c > 0, n + c, I0))
            if c is None:
                self.oblige('slice bound is not negative', x >= 0, 'bounds')
            return simp(If(x < n, x, n))
        b = norm(hi, n)
        c = cint(term(lo)) if lo is not None else None
        if c is not None and c > 0:
            # a start beyond the end gives an empty slice either way
            a = z3.IntVal(c)
            return a, simp(If(b > a, b - a, I0))
        a = norm(lo, I0)
        return a, simp(If(b > a, b - a, I0))

    def index(self, i, n, line=None, what='index in range'):
        i = term(i)
        if i.sort() == BOOL:
            raise Unsupported('bool index')
        c = cint(i)
        if c is not None and c < 0:
            i = simp(n + c)
            self.oblige(what, i >= 0, 'bounds', line)
            return i
        self.oblige(what, And(i >= 0, i < n), 'bounds', line)
        return i

    def getitem(self, v, sl, env, line=None):
        w = self.val(v)
        if isinstance(w, Opq):
            self.ev(sl, env) if not isinstance(sl, ast.Slice) else None
            return Opq('%s[]' % w.what, (w,))
        if isinstance(w, Bi) and w.name == 'numpy.r_':
            from . import pynp
            return pynp.concat(self, [(lambda a: a if a.rank else pynp.Arr([I1], lambda i, a=a: a(), a.dt))(pynp.asarr(self, self.ev(x, env))) for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl])], 0)
        if isinstance(w, Bi):
            return w
        if isinstance(w, Arr):
            return self.arrget(v, w, sl, env, line)
        if isinstance(sl, ast.Slice):
            if sl.step is not None:
                raise Unsupported('slice step line %s' % line)
            lo = self.ev(sl.lower, env) if sl.lower else None
            hi = self.ev(sl.upper, env) if sl.upper else None
            if isinstance(w, tuple):
                return w[cint(lo) if lo is not None else None:cint(hi) if hi is not None else None]
            if isinstance(w, z3.ExprRef) and w.sort() == STR:
                lo_, hi_ = (z3.IntVal(cint(x)) if x is not None else z3.IntVal(-999) for x in (lo, hi))
                return z3.Function('substring', STR, INT, INT, STR)(w, lo_, hi_)
            if isinstance(w, Seq):
                a, n = self.slice_bounds(w.n, lo, hi)
                return Seq(n, lambda i: w[simp(a + i)])
            raise Unsupported('slice of %s line %s' % (type(w).__name__, line))
        i = self.ev(sl, env)
        if isinstance(w, tuple):
            c = cint(i)
            if c is not None:
                if not -len(w) <= c < len(w):
                    raise Raise('IndexError')
                return w[c]
            self.oblige('index in range', And(i >= 0, i < len(w)), 'bounds', line)
            return self.chain(w, i)
        if isinstance(w, Seq):
            return w[self.index(i, w.n, line)]
        if isinstance(w, Dict):
            for k, x in w.items:
                if self.branch(self.equal(k, i)):
                    return x
            self.oblige('key present', FALSE, 'bounds', line)
            raise Stop()
        raise Unsupported('subscript of %s line %s' % (type(w).__name__, line))

    def setitem(self, v, sl, val, env, line=None):
        w = self.val(v)
        if isinstance(w, Dict):
            k = self.ev(sl, env)
            items = [(a, b) for a, b in w.items if self.equal(a, k) is not True] + [(k, self.hold(val))]
            self.store(v, Dict(items))
            return
        if isinstance(w, Seq) and isinstance(v, Cell) and not isinstance(sl, ast.Slice):
            i = self.index(self.ev(sl, env), w.n, line)
            x = self.snap(val)
            self.store(v, Seq(w.n, lambda j: self.ite2(j == i, lambda: x, lambda: w[j])))
            return
        if isinstance(w, Arr) and isinstance(v, Cell):
            from . import pynp
            pynp.arrset(self, v, w, sl, val, env, line)
            return
        raise Unsupported('item assignment line %s' % line)

    def arrget(self, v, w, sl, env, line):
        from . import pynp
        return pynp.arrget(self, v, w, sl, env, line)

    def arrop(self, op, a, b):
        from . import pynp
        return pynp.arrop(self, op, a, b)

    def bcast(self, vs, f, dt):
        from . import pynp
        return pynp.bcast(self, vs, f, dt)

    def map1(self, a, f, dt=None):
        a = self.val(a)
        return Arr(a.shape, lambda *i: f(a(*i)), dt or a.dt)

    def e_ListComp(self, e, env):
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        n, at = self.iteration(self.ev(g.iter, env))
        c = cint(n)
        if c is not None and c <= 64:
            out = empty()
            for j in range(c):
                sub = dict(env)
                self.assign(g.target, at(z3.IntVal(j)), sub)
                if all(self.branch(self.truth(self.ev(q, sub))) for q in g.ifs):
                    out = self.append(out, self.snap(self.ev(e.elt, sub)))
            return out
        if g.ifs:
            return self.filtered(e, g, n, at, env)

        def el(i):
            sub = dict(env)
            self.assign(g.target, at(i), sub)
            return self.quiet(lambda: self.snap(self.ev(e.elt, sub)))
        # obligations of the element expression are raised once, at an arbitrary index
        i0 = self.fresh('compr', INT)
        save = list(self.path)
        self.assume(And(i0 >= 0, i0 < n))
        sub = dict(env)
        self.assign(g.target, at(i0), sub)
        d = len(self.taken)
        self.ev(e.elt, sub)
        if len(self.taken) != d:
            raise Unsupported('branching comprehension line %d' % e.lineno)
        self.path = save
        return Seq(n, el)

    def filtered(self, e, g, n, at, env):
        """[f(x) for x in xs if c(x)]: the elements that satisfy c, in order (via their ranks)"""
        E = self

        def ok(i):
            sub = dict(env)
            E.assign(g.target, at(i), sub)
            r = TRUE
            for q in g.ifs:
                t = E.quiet(lambda: E.truth(E.ev(q, sub)))
                r = And(r, t if not isinstance(t, bool) else z3.BoolVal(t))
            return r

        def el(i):
            sub = dict(env)
            E.assign(g.target, at(i), sub)
            return E.quiet(lambda: E.snap(E.ev(e.elt, sub)))
        i0 = self.fresh('compr', INT)
        save = list(self.path)
        self.assume(And(i0 >= 0, i0 < n))
        sub = dict(env)
        self.assign(g.target, at(i0), sub)
        d = len(self.taken)
        for q in g.ifs:
            t = self.truth(self.ev(q, sub))
            self.assume(t if not isinstance(t, bool) else z3.BoolVal(t))
        self.ev(e.elt, sub)
        if len(self.taken) != d:
            raise Unsupported('branching comprehension line %d' % e.lineno)
        self.path = save
        cnt, pos = self.select(n, ok, trig=lambda i: self.trigger(at(i)))
        return Seq(cnt, lambda j: el(pos(j)))

    def trigger(self, v):
        v = self.val(v)
        return v if isinstance(v, z3.ExprRef) and not z3.is_const(v) else None

    def select(self, n, ok, trig=None):
        """the increasing enumeration of {i < n : ok(i)}: (count, position function)"""
        self.n += 1
        rank = z3.Function('rank!%d' % self.n, INT, INT)
        pos = z3.Function('pos!%d' % self.n, INT, INT)
        i, j = z3.Ints('sel!i sel!j')
        cnt = rank(n)
        self.fact(rank(I0) == 0)
        self.fact(forall([i], Implies(And(i >= 0, i < n), rank(i + 1) == rank(i) + If(ok(i), I1, I0)), [rank(i + 1)]))
        self.fact(forall([i], Implies(And(i >= 0, i <= n), And(rank(i) >= 0, rank(i) <= i, rank(i) <= cnt)), [rank(i)]))
        self.fact(forall([j], Implies(And(j >= 0, j < cnt), And(pos(j) >= 0, pos(j) < n, ok(pos(j)), rank(pos(j)) == j)), [pos(j)]))
        self.fact(forall([i], Implies(And(i >= 0, i < n, ok(i)), And(pos(rank(i)) == i, rank(i) < cnt)), [rank(i)]))
        self.fact(forall([i, j], Implies(And(i >= 0, i < j, j < cnt), pos(i) < pos(j)), [z3.MultiPattern(pos(i), pos(j))]))
        self.fact(cnt >= 0)
        self.last_select = (rank, pos)
        if self.opts.get('on_select'):
            self.opts['on_select'](self, n, rank, pos)
        return cnt, pos

    def quiet(self, f):
        """evaluates without recording obligations (they were raised at an arbitrary index)"""
        o, p, r = self.obs, list(self.path), self.record_from
        tr = self.trivial
        self.obs = []
        d = len(self.taken)
        try:
            v = f()
        finally:
            self.obs, self.path, self.trivial = o, p, tr
        if len(self.taken) != d:
            raise Unsupported('branching in an element expression')
        return v

    e_GeneratorExp = e_ListComp

    def e_Lambda(self, e, env):
        n = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=0)
        return Fn(n, env, self.mod)

    def e_Starred(self, e, env):
        raise Unsupported('starred expression line %d' % e.lineno)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        if isinstance(self.val(f), Bi) and self.val(f).name == 'print':
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(self.ev(a.value, env))
                if not isinstance(v, tuple):
                    raise Unsupported('starred argument line %d' % e.lineno)
                args += list(v)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                d = self.val(v)
                if not isinstance(d, Dict):
                    raise Unsupported('** argument line %d' % e.lineno)
                kw.update({a: b for a, b in d.items})
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e.lineno)

    def call(self, f, args, kw, line=None):
        f = self.val(f)
        if isinstance(f, Fn):
            name = f.qual
            if name in self.callees:
                return self.bycontract(name, self.callees[name], f, args, kw, line)
            return self.inline(f, args, kw, line)
        from . import pynp
        if isinstance(f, Method):
            return pynp.method(self, f.obj, f.name, args, kw, line)
        if isinstance(f, Bi):
            if f.name in self.callees:
                return self.bycontract(f.name, self.callees[f.name], None, args, kw, line)
            if f.name.startswith('class:'):
                return self.construct(f.name[6:], args, kw, line)
            return pynp.function(self, f.name, args, kw, line)
        if isinstance(f, Opq):
            return Opq(f.what + '()', (f,) + tuple(args) + tuple(kw.values()))
        raise Unsupported('call line %s' % line)

    def construct(self, name, args, kw, line):
        cls = self.mod.names[name]
        fields = {}
        names = []
        for s in cls.body:
            if isinstance(s, ast.AnnAssign):
                names.append(s.target.id)
                if s.value is not None:
                    v = s.value
                    if isinstance(v, ast.Call) and any(k.arg == 'default_factory' for k in v.keywords):
                        fac = next(k.value for k in v.keywords if k.arg == 'default_factory')
                        fields[s.target.id] = ('factory', fac)
                    else:
                        fields[s.target.id] = ('value', v)
        if not any('dataclass' in ast.dump(d) for d in cls.decorator_list):
            raise Unsupported('construction of %s' % name)
        vals = dict(zip(names, args))
        vals.update(kw)
        out = {}
        for n in names:
            if n in vals:
                out[n] = self.hold(vals[n])
            elif n in fields:
                k, x = fields[n]
                out[n] = self.hold(self.call(self.ev(x, {}), [], {}, line) if k == 'factory' else self.ev(x, {}))
            else:
                raise Unsupported('missing field %s' % n)
        return self.alloc(Obj(name, out))

    def bindargs(self, node, bound, args, kw):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = ([bound] if bound is not None else []) + list(args)
        if len(pos) > len(names):
            raise Unsupported('too many arguments')
        vals.update(zip(names, pos))
        vals.update(kw)
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        d.update({y.arg: e for y, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None})
        for n in names + [y.arg for y in a.kwonlyargs]:
            if n not in vals:
                if n not in d:
                    raise Unsupported('missing argument %s' % n)
                vals[n] = self.ev(d[n], {})
        return vals

    def inline(self, f, args, kw, line):
        if self.depth > 12:
            raise Unsupported('recursion')
        vals = self.bindargs(f.node, f.bound, args, kw)
        env = dict(f.env)
        env.update({k: self.hold(v) for k, v in vals.items()})
        self.depth += 1
        m, self.mod = self.mod, f.mod
        try:
            self.block(f.node.body, env)
            r = None
        except Ret as x:
            r = x.v
        finally:
            self.depth -= 1
            self.mod = m
        return r

    def bycontract(self, name, c, f, args, kw, line):
        if f is not None:
            vals = self.bindargs(f.node, f.bound, args, kw)
        else:
            vals = dict(zip(c.params, args))
            vals.update(kw)
        A = Args({k: self.val(v) for k, v in vals.items()})
        for nm, g in (c.requires(self, A) if c.requires else []):
            self.oblige('%s: %s' % (name.split('.')[-1], nm), g, 'callee', line)
        if c.raises:
            k = c.raises(self, A)
            if self.branch(k[1] if isinstance(k, tuple) else k, line):
                raise Raise(k[0] if isinstance(k, tuple) else 'ValueError')
        self.n += 1
        r = c.make(self, A, '%s!%d' % (name.split('.')[-1], self.n)) if c.make else self.mk(c.result, '%s!%d' % (name.split('.')[-1], self.n)) if c.result is not None else None
        for g in (c.ensures(self, A, r) if c.ensures else []):
            self.assume(g)
        self.contract_uses = getattr(self, 'contract_uses', set()) | {name}
        return r


class Args(dict):
    def __getattr__(self, k):
        if k not in self:
            raise BindError('no parameter %s' % k)
        return self[k]

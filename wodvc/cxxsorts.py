"""z3 sorts for the C++ types that occur in the extracted IR."""
import re
import z3

OPQ = z3.DeclareSort('Opaque')
STR = z3.DeclareSort('Str')


class Unsupported(Exception):
    pass


class DT:
    def __init__(self, kind, sort, fields, ty=None):
        self.kind, self.sort, self.ty = kind, sort, ty
        self.fields = fields                      # [(name, sort, ctype)]
        self.ctor = sort.constructor(0)
        self.acc = {n: sort.accessor(0, i) for i, (n, _, _) in enumerate(fields)}
        self.idx = {n: i for i, (n, _, _) in enumerate(fields)}

    def make(self, *vals):
        return self.ctor(*vals)

    def get(self, term, f):
        # read through constructors syntactically so terms stay small
        t = term
        while True:
            if z3.is_app(t) and t.decl().eq(self.ctor):
                return t.arg(self.idx[f])
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                a, b = t.arg(1), t.arg(2)
                if z3.is_app(a) and a.decl().eq(self.ctor) or z3.is_app(b) and b.decl().eq(self.ctor):
                    x, y = self.get(a, f), self.get(b, f)
                    return x if x.eq(y) else z3.If(t.arg(0), x, y)
            return self.acc[f](t)

    def set(self, term, f, v):
        return self.ctor(*[v if n == f else self.get(term, n) for n, _, _ in self.fields])


MADE = {}


class Sorts:
    def __init__(self, types, records, enums, protos, used_proto_fields):
        self.types, self.records, self.enums = types, records, enums
        self.protos, self.used = protos, used_proto_fields
        self.cache = {}
        self.info = {}      # sort -> DT
        self.busy = set()
        self.strs = {}
        self.defaults = {}

    def d(self, ty):
        return self.types.get(ty) or {'k': 'other'}

    def strip(self, ty):
        while self.d(ty)['k'] == 'ref':
            ty = self.d(ty)['t']
        if ty in self.types and self.types[ty]['k'] == 'ptr':
            return ty
        return re.sub(r'^const ', '', ty)

    def mk(self, kind, name, fields, ty=None):
        # z3 knows a datatype by its name: the same name must always mean the same sort
        key = tuple((n, s) for n, s, _ in fields)
        while name in MADE and MADE[name][0] != key:
            name += 'x'
        if name not in MADE:
            dt = z3.Datatype(name)
            dt.declare('mk_' + name, *[('%s__%s' % (name, n), s) for n, s, _ in fields])
            MADE[name] = (key, dt.create())
        s = MADE[name][1]
        self.info[s] = DT(kind, s, fields, ty)
        return s

    def vec(self, elem_ty=None, elem_sort=None):
        es = elem_sort if elem_sort is not None else self.sort(elem_ty)
        key = ('vec', es)
        if key not in self.cache:
            self.cache[key] = self.mk('vec', 'Vec_%s' % es.name().replace(' ', '_') + '_%d' % len(self.cache),
                                      [('len', z3.IntSort(), 'int'), ('data', z3.ArraySort(z3.IntSort(), es), elem_ty)], elem_ty)
            self.info[self.cache[key]].elem = es
            self.info[self.cache[key]].ety = elem_ty
        return self.cache[key]

    VECS = ('std::vector', 'google::protobuf::RepeatedPtrField', 'google::protobuf::RepeatedField',
            'std::initializer_list', 'absl::Span', 'std::array', 'absl::InlinedVector')
    MAPS = ('std::map', 'std::unordered_map', 'absl::flat_hash_map', 'absl::node_hash_map',
            'google::protobuf::Map', 'absl::btree_map')
    SETS = ('std::set', 'std::unordered_set', 'absl::flat_hash_set', 'absl::btree_set')
    STRS = ('std::basic_string', 'std::basic_string_view', 'absl::string_view')

    def sort(self, ty):
        ty = self.strip(ty)
        if ty in self.cache:
            return self.cache[ty]
        if ty in self.busy:
            return OPQ
        self.busy.add(ty)
        s = self._sort(ty)
        self.busy.discard(ty)
        self.cache[ty] = s
        return s

    def nm(self, ty):
        return re.sub(r'[^A-Za-z0-9]+', '_', ty.split('<')[0].split('::')[-1])[:40] + '_%d' % len(self.cache)

    def _sort(self, ty):
        d = self.d(ty)
        k = d['k']
        if k in ('int', 'enum'):
            return z3.IntSort()
        if k == 'bool':
            return z3.BoolSort()
        if k == 'real':
            return z3.RealSort()
        if k == 'arr':
            return self.vec(d['t'])
        if k == 'ptr':
            if self.d(d['t']).get('w') == 8 and self.d(d['t'])['k'] == 'int':
                return STR
            s = self.sort(d['t'])
            if s == OPQ:
                return OPQ
            return self.opt(d['t'])
        if k != 'rec':
            return OPQ
        n, a = d['n'], d['args']
        if n in self.STRS:
            return STR
        if n == 'std::unique_ptr' and self.d(a[0])['k'] == 'other' and a[0].endswith('[]'):
            return self.vec(a[0][:-2])
        if n in self.VECS:
            return self.vec(a[0])
        if n in self.MAPS:
            ks, vs = self.sort(a[0]), self.sort(a[1])
            s = self.mk('map', self.nm('Map'), [('dom', z3.ArraySort(ks, z3.BoolSort()), None),
                                             ('val', z3.ArraySort(ks, vs), None), ('card', z3.IntSort(), 'int')], ty)
            self.info[s].kty, self.info[s].vty = a[0], a[1]
            self.info[s].ordered = n in ('std::map', 'absl::btree_map')
            return s
        if n in self.SETS:
            ks = self.sort(a[0])
            s = self.mk('set', self.nm('Set'), [('dom', z3.ArraySort(ks, z3.BoolSort()), None),
                                             ('card', z3.IntSort(), 'int')], ty)
            self.info[s].kty = a[0]
            self.info[s].ordered = n == 'std::set'
            return s
        if n == 'std::pair' or n == 'google::protobuf::MapPair':
            return self.mk('rec', self.nm('Pair'), [('first', self.sort(a[0]), a[0]), ('second', self.sort(a[1]), a[1])], ty)
        if n in ('std::optional', 'absl::optional', 'std::unique_ptr', 'std::shared_ptr'):
            return self.opt(a[0])
        if n == 'std::tuple':
            el = a[0] if a and isinstance(a[0], list) else a
            return self.mk('rec', self.nm('Tuple'), [('e%d' % i, self.sort(x), x) for i, x in enumerate(el)], ty)
        if n == 'std::atomic' or n == 'std::reference_wrapper':
            return self.sort(a[0])
        if n == 'std::_Bit_reference':
            return z3.BoolSort()
        if n == 'std::function':
            return self.mk('fn', self.nm('Fn'), [('set', z3.BoolSort(), 'bool'), ('id', OPQ, None)], ty)
        if n == 'absl::Status':
            return self.mk('status', self.nm('Status'), [('ok', z3.BoolSort(), 'bool')], ty)
        if n == 'absl::StatusOr':
            return self.mk('statusor', self.nm('StatusOr'), [('ok', z3.BoolSort(), 'bool'), ('val', self.sort(a[0]), a[0])], ty)
        if d.get('proto'):
            return self.proto(ty, n)
        if ty in self.records:
            r = self.records[ty]
            fields = []
            seen = set()

            def add(rr):
                for b in rr['bases']:
                    if b in self.records:
                        add(self.records[b])
                for f in rr['fields']:
                    if f['n'] and f['n'] not in seen:
                        seen.add(f['n'])
                        fields.append((f['n'], self.sort(f['t']), f['t']))
            add(r)
            if not fields:
                fields = [('__id', z3.IntSort(), None)]      # ghost identity of an object without data
            return self.mk('rec', self.nm(ty), fields, ty)
        return OPQ

    def opt(self, ety):
        es = self.sort(ety)
        key = ('opt', es)
        if key not in self.cache:
            self.cache[key] = self.mk('opt', 'Opt_%d' % len(self.cache), [('has', z3.BoolSort(), 'bool'), ('val', es, ety)], ety)
            self.info[self.cache[key]].ety = ety
        return self.cache[key]

    def proto(self, ty, n):
        p = self.protos.get(n)
        if p is None:
            return OPQ
        fields = []
        for f in p['fields']:
            if f['name'] not in self.used.get(n, ()):
                continue
            ft = f['ctype']
            if f['repeated']:
                s = self.vec(ft) if not f.get('map') else self.sort(ft)
                fields.append((f['name'], s, ft))
            else:
                fields.append((f['name'], self.sort(ft), ft))
                if f['presence']:
                    fields.append(('has_' + f['name'], z3.BoolSort(), 'bool'))
        fields.append(('__rest', OPQ, None))
        s = self.mk('proto', self.nm(n), fields, ty)
        self.info[s].msg = n
        self.info[s].pf = {f['name']: f for f in p['fields']}
        return s

    def lit(self, s):
        if s not in self.strs:
            self.strs[s] = z3.Const('str!%d!%s' % (len(self.strs), re.sub(r'\W', '_', s)[:20]), STR)
        return self.strs[s]

    def str_axioms(self):
        v = list(self.strs.values())
        return [z3.Distinct(*v)] if len(v) > 1 else []

    def default_of_sort(self, s, ty=None):
        if s in self.defaults:
            return self.defaults[s]
        if s == z3.IntSort():
            r = z3.IntVal(0)
        elif s == z3.RealSort():
            r = z3.RealVal(0)
        elif s == z3.BoolSort():
            r = z3.BoolVal(False)
        elif s == STR:
            r = self.lit('')
        elif s == OPQ:
            r = z3.Const('opaque_default', OPQ)
        elif isinstance(s, z3.ArraySortRef):
            r = z3.K(s.domain(), self.default_of_sort(s.range()))
        elif s in self.info:
            dt = self.info[s]
            if dt.kind == 'proto':
                r = self.default_proto(dt)
            elif dt.kind in ('status', 'statusor'):
                r = dt.make(z3.BoolVal(True), *[self.default_of_sort(x) for _, x, _ in dt.fields[1:]])
            else:
                r = dt.make(*[self.default_of_sort(x) for _, x, _ in dt.fields])
        else:
            raise Unsupported('default of %s' % s)
        self.defaults[s] = r
        return r

    def default_proto(self, dt):
        vals = []
        for n, s, t in dt.fields:
            f = dt.pf.get(n)
            if f is not None and not f['repeated'] and f.get('default') is not None:
                vals.append(self.py(f['default'], s))
            else:
                vals.append(self.default_of_sort(s))
        return dt.make(*vals)

    def py(self, v, s):
        if s == z3.BoolSort():
            return z3.BoolVal(bool(v))
        if s == z3.IntSort():
            return z3.IntVal(int(v))
        if s == z3.RealSort():
            return z3.RealVal(str(v) if 'e' not in repr(v) else '%.20f' % v)
        if s == STR:
            return self.lit(v)
        return self.default_of_sort(s)

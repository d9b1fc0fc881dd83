"""C01: contracts on the Hungarian algorithm (hungarian.cc).

w(d, n, i, j) names the weight of row i and column j of the array d (w(d,n,i,j) == d[i*n+j] by definition);
every access edge[i*n+j] of the code contributes that instance of the definition.  That a perfect matching
of tight edges under a feasible labelling is a maximum-weight permutation is proved in Lean (lean/hungarian.lean)."""
from spec import *
from wodvc.cxxsorts import Unsupported

i, j, k, l, x = z3.Ints('spec!i spec!j spec!k spec!l spec!x')
Z = z3.IntSort()
OS = ANON + 'OrderedSet::'
MA = ANON + 'Matching::'
MAXI = 2 ** 31 - 1


def W(E, d, n, a, b):
    dd = E.get(d, 'data')
    return z3.Function('w', dd.sort(), Z, Z, Z, Z)(dd, n, a, b)


def itimes(a, b):
    return z3.Function('itimes', Z, Z, Z)(a, b)


def on_index(E, lv, t):
    """edge[i*n + j]: the definition of w and the range of the index"""
    if z3.is_add(t) and t.num_args() == 2 and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == 'itimes':
        d = E.read(lv)
        (a, n), b = t.arg(0).children(), t.arg(1)
        E.fact(W(E, d, n, a, b) == E.at(d, t))
        # lemma 'flat index in range'
        E.fact(Implies(And(inr(a, n), inr(b, n)), And(t >= 0, t < itimes(n, n))))


OPT = dict(arrays=('edge', 'lx', 'ly', 'perm', 'p'), on_index=on_index, imul=True, checks='prove', name_joins=True)


def mem(E, X):
    return E.get(X, 'M_')


def items(E, X):
    return E.get(X, 'I_')


def has(E, X, b):
    return E.at(mem(E, X), b)


def it(E, X, b):
    return E.at(items(E, X), b)


def size(E, X):
    return E.len(items(E, X))


def oset(E, X, n):
    """data-structure invariant of OrderedSet"""
    return [('set holds 0..n-1', E.len(mem(E, X)) == n),
            ('members are marked', forall([k], Implies(inr(k, size(E, X)), And(inr(it(E, X, k), n), has(E, X, it(E, X, k)))), [it(E, X, k)])),
            ('marks are members', forall([j], Implies(And(inr(j, n), has(E, X, j)), z3.Exists([k], And(inr(k, size(E, X)), it(E, X, k) == j))), [has(E, X, j)])),
            ('members are distinct', forall([k, l], Implies(And(k >= 0, k < l, l < size(E, X)), it(E, X, k) != it(E, X, l)), [z3.MultiPattern(it(E, X, k), it(E, X, l))]))]


def P(E, m):
    return E.get(m, 'p_')


def IP(E, m):
    return E.get(m, 'ip_')


def matching(E, m, n):
    """data-structure invariant of Matching: mutually inverse partial maps"""
    p, q = P(E, m), IP(E, m)
    return [('sizes', And(E.len(p) == n, E.len(q) == n)),
            ('rows', forall([i], Implies(inr(i, n), Or(E.at(p, i) == -1, And(inr(E.at(p, i), n), E.at(q, E.at(p, i)) == i))), [E.at(p, i)])),
            ('columns', forall([j], Implies(inr(j, n), Or(E.at(q, j) == -1, And(inr(E.at(q, j), n), E.at(p, E.at(q, j)) == j))), [E.at(q, j)]))]


def dims(E, A, *names):
    n = A['n']
    return [('n', n >= 1)] + [(nm, E.len(A[nm]) == n) for nm in names if nm != 'edge'] + ([('edge', E.len(A['edge']) == itimes(n, n))] if 'edge' in names else [])


def tight(E, A, a, b):
    return E.at(A['lx'], a) + E.at(A['ly'], b) == W(E, A['edge'], A['n'], a, b)


def rows(E, S, n):
    return [('rows in range', forall([x], Implies(inr(x, E.len(S)), inr(E.at(S, x), n)), [E.at(S, x)]))]


def distinct(E, S):
    return [('rows distinct', forall([k, l], Implies(And(k >= 0, k < l, l < E.len(S)), E.at(S, k) != E.at(S, l)), [z3.MultiPattern(E.at(S, k), E.at(S, l))]))]


def feasible(E, A):
    return [('labels are feasible', forall([i, j], Implies(And(inr(i, A['n']), inr(j, A['n'])), E.at(A['lx'], i) + E.at(A['ly'], j) >= W(E, A['edge'], A['n'], i, j)), [W(E, A['edge'], A['n'], i, j)]))]


def fs(l):
    return [f for _, f in l]


# ---- OrderedSet, Matching
def eq_post(E, A, r):
    X, Y = A['this'], A['s']
    return [('sets that differ: a member is missing', Or(r, some_missing(E, X, Y))),
            ('same members', r == And(size(E, X) == size(E, Y), forall([k], Implies(inr(k, size(E, X)), has(E, Y, it(E, X, k))), [it(E, X, k)])))]


def some_missing(E, X, Y):
    return z3.Exists([k], And(inr(k, size(E, X)), Not(has(E, Y, it(E, X, k)))))


def eq_req(E, A):
    """the algorithm compares the neighbours of the tree with the columns of the tree, which are among them"""
    X, Y = A['this'], A['s']
    n = E.len(mem(E, X))
    return oset(E, X, n) + oset(E, Y, n) + [
            ('the other is a subset', forall([j], Implies(And(inr(j, n), has(E, Y, j)), has(E, X, j)), [has(E, Y, j)])),
            ('members fit', forall([k], Implies(inr(k, size(E, X)), inr(it(E, X, k), E.len(mem(E, Y)))), [it(E, X, k)]))]


def ins_post(E, A, p):
    X0, X1, n = A['this'], p['this'], E.len(mem(E, A['this']))
    return oset(E, X1, n) + [('marks', forall([j], has(E, X1, j) == Or(has(E, X0, j), j == A['i']), [has(E, X1, j)])),
                             ('appended unless a member', size(E, X1) == size(E, X0) + If(has(E, X0, A['i']), I0, z3.IntVal(1))),
                             ('the new member is last', Implies(Not(has(E, X0, A['i'])), it(E, X1, size(E, X0)) == A['i'])),
                             ('old members stay in place', forall([k], Implies(inr(k, size(E, X0)), it(E, X1, k) == it(E, X0, k)), [it(E, X1, k)]))]


def ins_req(E, A):
    return oset(E, A['this'], E.len(mem(E, A['this']))) + [('in range', inr(A['i'], E.len(mem(E, A['this']))))]


def ins(E):
    return Contract(OS + 'insert', opts=OPT, requires=lambda A: ins_req(E, A), ensures=lambda A, r, p: ins_post(E, A, p), modifies=('this',))


def copy_post(E, A, p):
    return [('copied', forall([i], Implies(inr(i, E.len(P(E, A['this']))), E.at(p['p'], i) == E.at(P(E, A['this']), i)), [E.at(p['p'], i)])), ('length', E.len(p['p']) == E.len(A['p']))]


# ---- neighbours
def add_req(E, A):
    return dims(E, A, 'edge', 'lx', 'ly') + oset(E, A['N'], A['n']) + [('row', inr(A['i'], A['n'])), ('one parent per member', E.len(A['parentN']) == size(E, A['N']))]


def grown(E, A, N0, N1, upto):
    """N1 extends N0 by the tight columns of row i among the first upto"""
    n = A['n']
    return oset(E, N1, n) + [
        ('grows', size(E, N1) >= size(E, N0)),
        ('old members stay in place', forall([k], Implies(inr(k, size(E, N0)), it(E, N1, k) == it(E, N0, k)), [it(E, N1, k)])),
        ('new members are tight', forall([k], Implies(And(k >= size(E, N0), k < size(E, N1)), tight(E, A, A['i'], it(E, N1, k))), [it(E, N1, k)])),
        ('old members stay', forall([j], Implies(And(inr(j, n), has(E, N0, j)), has(E, N1, j)), [has(E, N1, j)])),
        ('tight columns are members', forall([j], Implies(And(inr(j, upto), tight(E, A, A['i'], j)), has(E, N1, j)), [W(E, A['edge'], n, A['i'], j)]))]


def add_post(E, A, p):
    N0, N1, q0, q1 = A['N'], p['N'], A['parentN'], p['parentN']
    return grown(E, A, N0, N1, A['n']) + [
        ('one parent per member', E.len(q1) == size(E, N1)),
        ('parents', forall([k], Implies(inr(k, E.len(q1)), E.at(q1, k) == If(k < E.len(q0), E.at(q0, k), A['parent_index'])), [E.at(q1, k)]))]


def find_req(E, A):
    return dims(E, A, 'edge', 'lx', 'ly') + rows(E, A['S'], A['n']) + [('set holds 0..n-1', E.len(mem(E, A['N'])) == A['n'])]


def found(E, A, N, q, upto):
    return oset(E, N, A['n']) + parents(E, A, A['S'], N, q, upto) + complete(E, A, A['S'], N, upto)


def parents(E, A, S, N, q, upto):
    return [('one parent per member', E.len(q) == size(E, N)),
            ('parents are tight', forall([k], Implies(inr(k, size(E, N)), And(inr(E.at(q, k), upto), tight(E, A, E.at(S, E.at(q, k)), it(E, N, k)))), [it(E, N, k)], ))]


def complete(E, A, S, N, upto):
    return [('every tight column of a row is found', forall([x, j], Implies(And(inr(x, upto), inr(j, A['n']), tight(E, A, E.at(S, x), j)), has(E, N, j)), [W(E, A['edge'], A['n'], E.at(S, x), j)]))]


# ---- labels
def inS(E, S, a, upto=None):
    return z3.Exists([x], And(inr(x, E.len(S) if upto is None else upto), E.at(S, x) == a))


def imp_req(E, A):
    return dims(E, A, 'edge', 'lx', 'ly') + rows(E, A['S'], A['n']) + distinct(E, A['S']) + oset(E, A['T'], A['n']) + feasible(E, A) + [('one more row than columns', E.len(A['S']) == size(E, A['T']) + 1)]


def imp_post(E, A, p):
    n, S, T = A['n'], A['S'], A['T']
    B = dict(A, lx=p['lx'], ly=p['ly'])
    sum0 = lambda: E.at(A['lx'], i) + E.at(A['ly'], j)
    sum1 = lambda: E.at(p['lx'], i) + E.at(p['ly'], j)
    return [('lengths', And(E.len(p['lx']) == n, E.len(p['ly']) == n))] + feasible(E, B) + [
        ('tree edges keep their sum', forall([x, j], Implies(And(inr(x, E.len(S)), inr(j, n), has(E, T, j)), E.at(p['lx'], E.at(S, x)) + E.at(p['ly'], j) == E.at(A['lx'], E.at(S, x)) + E.at(A['ly'], j)),
                                             [z3.MultiPattern(E.at(p['lx'], E.at(S, x)), E.at(p['ly'], j))])),
        ('edges off the tree keep their sum', forall([i, j], Implies(And(inr(i, n), inr(j, n), Not(inS(E, S, i)), Not(has(E, T, j))), sum1() == sum0()), [z3.MultiPattern(E.at(p['lx'], i), E.at(p['ly'], j))])),
        ('a new edge is tight', z3.Exists([x, j], And(inr(x, E.len(S)), inr(j, n), Not(has(E, T, j)), tight(E, B, E.at(S, x), j))))]


def build(S):
    a, b, n = z3.Ints('a b n')
    S.lemma('flat index in range', [inr(a, n), inr(b, n)], And(a * n + b >= 0, a * n + b < n * n))

    S.fn(OS + 'operator==', opts=OPT, requires=lambda E, A: fs(eq_req(E, A)) + [sub_pigeon(E, A['this'], A['s']), sub_pigeon(E, A['s'], A['this'])], ensures=lambda E, A, r, p: eq_post(E, A, r),
         loops={0: lambda E, L: [('so far', forall([l], Implies(inr(l, L.v('k')), has(E, E.A['s'], it(E, E.A['this'], l))), [it(E, E.A['this'], l)]))]})
    S.fn(OS + 'insert', opts=OPT, requires=lambda E, A: fs(ins_req(E, A)), ensures=lambda E, A, r, p: ins_post(E, A, p))
    S.fn(MA + 'CopyTo', opts=OPT, requires=lambda E, A: [E.len(A['p']) == E.len(P(E, A['this']))], ensures=lambda E, A, r, p: copy_post(E, A, p),
         loops={0: lambda E, L: [('copied', And(E.len(L.v('p')) == E.len(E.A['p']), forall([j], Implies(inr(j, L.v('i')), E.at(L.v('p'), j) == E.at(P(E, E.A['this']), j)), [E.at(L.v('p'), j)])))]})

    S.fn(ANON + 'AddNeighbours', opts=OPT, requires=lambda E, A: fs(add_req(E, A)), ensures=lambda E, A, r, p: add_post(E, A, p), callees=lambda E: {OS + 'insert': ins(E)},
         loops={0: lambda E, L: grown(E, E.A, E.A['N'], L.v('N'), L.v('j'))})

    def cadd(E):
        return Contract(ANON + 'AddNeighbours', opts=OPT, requires=lambda A: add_req(E, A), ensures=lambda A, r, p: add_post(E, A, p), modifies=('N', 'parentN'))
    S.fn(ANON + 'FindNeighbours', opts=OPT, requires=lambda E, A: fs(find_req(E, A)), callees=lambda E: {ANON + 'AddNeighbours': cadd(E)},
         ensures=lambda E, A, r, p: found(E, A, p['N'], p['parentN'], E.len(A['S'])),
         loops={0: lambda E, L: found(E, E.A, L.v('N'), L.v('parentN'), L.v('ii'))})

    def slack(E, a, b):
        A = E.A
        return E.at(A['lx'], a) + E.at(A['ly'], b) - W(E, A['edge'], A['n'], a, b)

    def best(E, L, xs, js, row):
        """a is the least slack over the pairs visited so far: rows before xs, and of row xs the columns before js"""
        A = E.A
        S_, T, n, a = A['S'], A['T'], A['n'], L.v('a')
        seen = lambda: Or(x < xs, And(x == xs, j < js)) if js is not None else x < xs
        dom = lambda: And(inr(x, E.len(S_)), inr(j, n), Not(has(E, T, j)), seen())
        return [('not negative', a >= 0), ('at most the slacks seen', forall([x, j], Implies(dom(), a <= slack(E, E.at(S_, x), j)), [W(E, A['edge'], n, E.at(S_, x), j)])),
                ('attained or no pair seen', Or(And(a == MAXI, forall([x, j], Implies(inr(x, E.len(S_)), Not(dom())), [z3.MultiPattern(E.at(S_, x), has(E, T, j))])), z3.Exists([x, j], And(dom(), a == slack(E, E.at(S_, x), j)))))]

    def lowered(E, L):
        A = E.A
        lx, S_, a, m = L.v('lx'), A['S'], L.v('a'), L.v('i')
        return [('rows of the tree lowered', And(E.len(lx) == A['n'], forall([x], Implies(inr(x, E.len(S_)), E.at(lx, E.at(S_, x)) == E.at(A['lx'], E.at(S_, x)) - If(x < m, a, I0)), [E.at(S_, x)]))),
                ('other rows unchanged', forall([i], Implies(And(inr(i, A['n']), Not(inS(E, S_, i))), E.at(lx, i) == E.at(A['lx'], i)), [E.at(lx, i)]))]

    def raised(E, L):
        A = E.A
        ly, T, a, m = L.v('ly'), A['T'], L.v('a'), L.v('j')
        return [('columns of the tree raised', And(E.len(ly) == A['n'], forall([x], Implies(inr(x, size(E, T)), E.at(ly, it(E, T, x)) == E.at(A['ly'], it(E, T, x)) + If(x < m, a, I0)), [it(E, T, x)]))),
                ('other columns unchanged', forall([i], Implies(And(inr(i, A['n']), Not(has(E, T, i))), E.at(ly, i) == E.at(A['ly'], i)), [E.at(ly, i)]))]

    def nooverflow(E, A):
        # the code computes these differences in int: they are assumed to fit (no signed overflow)
        return [forall([i, j], Implies(And(inr(i, A['n']), inr(j, A['n'])), E.at(A['lx'], i) + E.at(A['ly'], j) - W(E, A['edge'], A['n'], i, j) <= MAXI), [W(E, A['edge'], A['n'], i, j)])]
    S.fn(ANON + 'ImproveFeasibleLabeling', opts=OPT, requires=lambda E, A: fs(imp_req(E, A)) + nooverflow(E, A) + [
             pigeon(E.len(A['S']), lambda v: E.at(A['S'], v), A['n'], lambda v: v), pigeon(A['n'], lambda v: v, size(E, A['T']), lambda v: it(E, A['T'], v))], ensures=lambda E, A, r, p: imp_post(E, A, p),
         loops={0: lambda E, L: best(E, L, L.v('ii'), None, None), 1: lambda E, L: best(E, L, L.v('ii'), L.v('j'), None), 2: lowered, 3: raised})

    # ---- augmentation
    S.fn(ANON + 'AugmentMatching', opts=OPT, requires=lambda E, A: fs(aug_req(E, A)), ensures=lambda E, A, r, p: aug_post(E, A, p),
         loops={0: lambda E, L: walk(E, E.A, L)})
    S.fn(ANON + 'PickY', opts=OPT, requires=lambda E, A: fs(pick_req(E, A)), ensures=lambda E, A, r, p: pick_post(E, A, r),
         loops={0: lambda E, L: [('all in T so far', forall([k], Implies(inr(k, L.v('j')), has(E, E.A['T'], it(E, E.A['N'], k))), [it(E, E.A['N'], k)]))]})

    # ---- the algorithm
    def cal(E):
        def c(q, req, post, **kw):
            return Contract(q, opts=OPT, requires=req, ensures=post, **kw)
        return {OS + 'insert': ins(E), OS + 'operator==': c(OS + 'operator==', lambda A: eq_req(E, A), lambda A, r, p: eq_post(E, A, r)),
                MA + 'CopyTo': c(MA + 'CopyTo', lambda A: [('length', E.len(A['p']) == E.len(P(E, A['this'])))], lambda A, r, p: copy_post(E, A, p), modifies=('p',)),
                ANON + 'AddNeighbours': cadd(E),
                ANON + 'FindNeighbours': c(ANON + 'FindNeighbours', lambda A: find_req(E, A), lambda A, r, p: found(E, A, p['N'], p['parentN'], E.len(A['S'])), modifies=('N', 'parentN')),
                ANON + 'ImproveFeasibleLabeling': c(ANON + 'ImproveFeasibleLabeling', lambda A: imp_req(E, A), lambda A, r, p: imp_post(E, A, p), modifies=('lx', 'ly')),
                ANON + 'AugmentMatching': c(ANON + 'AugmentMatching', lambda A: aug_req(E, A), lambda A, r, p: aug_post(E, A, p), modifies=('m',)),
                ANON + 'PickY': c(ANON + 'PickY', lambda A: pick_req(E, A), lambda A, r, p: pick_post(E, A, r))}

    def env(E, L):
        return dict(E.A, lx=L.v('lx'), ly=L.v('ly'))

    def l0(E, L, inner=False):
        A, lx, ly, m = E.A, L.v('lx'), L.v('ly'), L.v('i')
        n = A['n']
        w = lambda: W(E, A['edge'], n, i, j)
        r = [('lengths', And(E.len(lx) == n, E.len(ly) == n)),
             ('rows so far', forall([i, j], Implies(And(inr(i, m), inr(j, n)), E.at(lx, i) >= w()), [w()])),
             ('column labels so far', forall([j], Implies(And(j >= 0, j < (m + 1 if inner else m)), E.at(ly, j) == 0), [E.at(ly, j)]))]
        if inner:
            r += [('this row so far', forall([j], Implies(inr(j, L.v('j')), E.at(lx, m) >= W(E, A['edge'], n, m, j)), [W(E, A['edge'], n, m, j)]))]
        return r

    def base(E, L):
        B, M_ = env(E, L), L.v('M')
        n = B['n']
        return [('lengths', And(E.len(B['lx']) == n, E.len(B['ly']) == n, E.len(mem(E, L.v('T'))) == n, E.len(mem(E, L.v('N'))) == n, E.len(L.v('perm')) == n))] + feasible(E, B) + matching(E, M_, n) + \
            [('matched edges are tight', forall([i], Implies(And(inr(i, n), E.at(P(E, M_), i) != -1), tight(E, B, i, E.at(P(E, M_), i))), [E.at(P(E, M_), i)]))]

    def growing(E, L):
        B, M_ = env(E, L), L.v('M')
        S_, T, q, N, qn, n = L.v('S'), L.v('T'), L.v('parentT'), L.v('N'), L.v('parentN'), B['n']
        t = size(E, T)
        return base(E, L) + oset(E, T, n) + rows(E, S_, n) + distinct(E, S_) + [('one more row than columns', And(E.len(S_) == t + 1, E.len(q) == t))] + \
            tree(E, S_, T, q, M_, n, t) + prow(E, S_, T, M_, n) + \
            [('tree edges are tight', forall([k], Implies(inr(k, t), tight(E, B, E.at(S_, E.at(q, k)), it(E, T, k))), [it(E, T, k)]))] + \
            oset(E, N, n) + parents(E, B, S_, N, qn, E.len(S_)) + complete(E, B, S_, N, E.len(S_))

    def post(E, A, p):
        B = dict(A, lx=p['lx'], ly=p['ly'])
        n, pe = A['n'], p['perm']
        return [('lengths', And(E.len(pe) == n, E.len(p['lx']) == n, E.len(p['ly']) == n)),
                ('every row has a column', forall([i], Implies(inr(i, n), inr(E.at(pe, i), n)), [E.at(pe, i)])),
                ('no column has two rows', forall([i, k], Implies(And(i >= 0, i < k, k < n), E.at(pe, i) != E.at(pe, k)), [z3.MultiPattern(E.at(pe, i), E.at(pe, k))])),
                ('matched edges are tight', forall([i], Implies(inr(i, n), tight(E, B, i, E.at(pe, i))), [E.at(pe, i)]))] + feasible(E, B)

    def weights(E, A, *names):
        w = W(E, A['edge'], A['n'], i, j)
        return dims(E, A, *names) + [('perm', E.len(A['perm']) == A['n']), ('weights are not negative', forall([i, j], Implies(And(inr(i, A['n']), inr(j, A['n'])), w >= 0), [w]))]
    S.fn(NS + 'Hungarian', label='Hungarian (labels)', nparams=5, opts=OPT, callees=cal,
         requires=lambda E, A: fs(weights(E, A, 'edge', 'lx', 'ly')),
         ensures=lambda E, A, r, p: post(E, A, p), loops={0: l0, 1: lambda E, L: l0(E, L, True), 2: base, 3: growing})

    def labelled(E):
        def ens(A, r, p):
            E.labels = dict(lx=p['lx'], ly=p['ly'])
            return post(E, A, p)
        return {NS + 'Hungarian': Contract(NS + 'Hungarian', nparams=5, opts=OPT, requires=lambda A: weights(E, A, 'edge', 'lx', 'ly'), ensures=ens, modifies=('perm', 'lx', 'ly'))}
    S.fn(NS + 'Hungarian', label='Hungarian', nparams=3, opts=OPT, callees=labelled, requires=lambda E, A: fs(weights(E, A, 'edge')),
         ensures=lambda E, A, r, p: post(E, A, dict(E.labels, perm=p['perm'])))
    S.lean('hungarian.lean', 'tight one-to-one assignments under feasible labels are permutations of maximum weight; distinct values among b are at most b')


def sub_pigeon(E, X, Y):
    return pigeon(size(E, X), lambda v: it(E, X, v), size(E, Y), lambda v: it(E, Y, v))


def pigeon(a, f, b, g):
    """theorem pigeon of lean/hungarian.lean: a distinct values f(0..a-1), all among g(0..b-1): a <= b"""
    return Implies(And(forall([k, l], Implies(And(k >= 0, k < l, l < a), f(k) != f(l))), forall([k], Implies(inr(k, a), z3.Exists([l], And(inr(l, b), f(k) == g(l))))), b >= 0), a <= b)


def tree(E, S, T, q, m, n, t):
    """the alternating tree with t columns: S[0] is free, T[k] is matched to S[k+1] and hangs off S[q[k]]; q[k] <= k"""
    p = P(E, m)
    return [('columns matched to the next row', forall([k], Implies(And(inr(k, t), k + 1 < E.len(S)), And(E.at(p, E.at(S, k + 1)) == it(E, T, k), E.at(IP(E, m), it(E, T, k)) == E.at(S, k + 1))), [it(E, T, k)])),
            ('parents come earlier', forall([k], Implies(inr(k, t), And(E.at(q, k) >= 0, E.at(q, k) <= k)), [E.at(q, k)])),
            ('the root is free', E.at(p, E.at(S, 0)) == -1)]


def prow(E, S, T, m, n):
    """a row after the root is matched to the column before it"""
    p = P(E, m)
    return [('rows matched to the column before', forall([x], Implies(And(x >= 1, x < E.len(S)), E.at(p, E.at(S, x)) == it(E, T, x - 1)), [E.at(S, x)]))]


def aug_req(E, A):
    S, T, q, m = A['S'], A['T'], A['parentT'], A['m']
    n = E.len(P(E, m))
    t = size(E, T)
    return matching(E, m, n) + oset(E, T, n) + rows(E, S, n) + distinct(E, S) + [('as many rows as columns', And(E.len(S) == t, E.len(q) == t, t >= 1, n >= 1))] + \
        tree(E, S, T, q, m, n, t) + prow(E, S, T, m, n) + [('the leaf is free', E.at(IP(E, m), it(E, T, t - 1)) == -1)]


def fresh_edges(E, A, m):
    """every pair of m that is new is an edge of the tree"""
    S, T, q = A['S'], A['T'], A['parentT']
    p0, p1 = P(E, A['m']), P(E, m)
    return [('new pairs are tree edges', forall([i], Implies(inr(i, E.len(p0)), Or(E.at(p1, i) == E.at(p0, i), z3.Exists([k], And(inr(k, size(E, T)), E.at(S, E.at(q, k)) == i, it(E, T, k) == E.at(p1, i))))), [E.at(p1, i)]))]


def aug_post(E, A, p):
    n = E.len(P(E, A['m']))
    p0, p1 = P(E, A['m']), P(E, p['m'])
    return matching(E, p['m'], n) + fresh_edges(E, A, p['m']) + [
        ('matched rows stay matched', forall([i], Implies(And(inr(i, n), E.at(p0, i) != -1), E.at(p1, i) != -1), [E.at(p1, i)])),
        ('the root is matched', E.at(p1, E.at(A['S'], 0)) != -1)]


def walk(E, A, L):
    S, T, q = A['S'], A['T'], A['parentT']
    m, jj, kk = L.v('m'), L.v('j'), L.v('k')
    n = E.len(P(E, A['m']))
    p, ip, p0 = P(E, m), IP(E, m), P(E, A['m'])
    return [('sizes', And(E.len(p) == n, E.len(ip) == n, kk < size(E, T))),
            ('rows', forall([i], Implies(inr(i, n), Or(E.at(p, i) == -1, And(inr(E.at(p, i), n), E.at(ip, E.at(p, i)) == i))), [E.at(p, i)])),
            ('columns but the dangling one', forall([j], Implies(And(inr(j, n), j != jj), Or(E.at(ip, j) == -1, And(inr(E.at(ip, j), n), E.at(p, E.at(ip, j)) == j))), [E.at(ip, j)])),
            ('no row has the dangling column', forall([i], Implies(inr(i, n), E.at(p, i) != jj), [E.at(p, i)])),
            ('the dangling column is in the tree', z3.Exists([l], And(l >= 0, l <= kk, it(E, T, l) == jj))),
            ('rows up to it are unchanged', forall([l, x], Implies(And(inr(l, size(E, T)), it(E, T, l) == jj, x >= 0, x <= l), E.at(p, E.at(S, x)) == E.at(p0, E.at(S, x))), [z3.MultiPattern(it(E, T, l), E.at(S, x))])),
            ('matched rows stay matched', forall([i], Implies(And(inr(i, n), E.at(p0, i) != -1), E.at(p, i) != -1), [E.at(p, i)]))] + fresh_edges(E, A, m)


def pick_req(E, A):
    N, T = A['N'], A['T']
    return [('members fit', forall([k], Implies(inr(k, size(E, N)), inr(it(E, N, k), E.len(mem(E, T)))), [it(E, N, k)])),
            ('some member is not in T', z3.Exists([k], And(inr(k, size(E, N)), Not(has(E, T, it(E, N, k))))))]


def pick_post(E, A, r):
    return [('a member not in T', And(inr(r, size(E, A['N'])), Not(has(E, A['T'], it(E, A['N'], r)))))]

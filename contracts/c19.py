"""C19: delta compression of range images (delta_encoder.py)."""
from spec import *
from wodvc import py as P, pynp

MOD = 'waymo_open_dataset/utils/compression/delta_encoder.py'
DATA = 'DeltaEncodedData'
i, j, k, a, b, c = z3.Ints('spec!i spec!j spec!k spec!a spec!b spec!c')
INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()


def runs(S, m, length, N, bit):
    """the m run lengths describe the N bits: runs alternate, the first is of ones; S = end of each run"""
    return [('the first run starts at 0', S(I0) == 0),
            ('runs follow each other', forall([j], Implies(inr(j, m), And(length(j) >= 0, S(j + 1) == S(j) + length(j))), [length(j)])),
            ('runs cover everything', And(m >= 0, S(m) == N)),
            ('runs alternate', forall([j, i], Implies(And(inr(j, m), S(j) <= i, i < S(j + 1), inr(i, N)), bit(i) == (j % 2 == 0)), [z3.MultiPattern(S(j), bit(i))]))]


def enumeration(rank, pos, N, bit):
    cnt = rank(N)
    return [('count', And(cnt >= 0, rank(I0) == 0, N >= 0)),
            ('ranks', forall([i], Implies(inr(i, N), rank(i + 1) == rank(i) + If(bit(i), z3.IntVal(1), I0)), [rank(i + 1)])),
            ('positions', forall([j], Implies(inr(j, cnt), And(inr(pos(j), N), bit(pos(j)), rank(pos(j)) == j)), [pos(j)])),
            ('ranks of positions', forall([i], Implies(And(inr(i, N), bit(i)), And(pos(rank(i)) == i, rank(i) >= 0, rank(i) < cnt)), [rank(i)]))]


def image(E, I, p, shape):
    """quantised values: q(row, column, channel) and V(k) in the order channel, row, column"""
    R_, W, C = shape
    quiet(E)
    q = lambda r, w, ch: pynp.rnd(E, E.div(I(r, w, ch), p(ch)))
    flat, un, N = pynp.bijection(E, [C, R_, W])
    V = E.func('quantised', INT, INT)
    bit = E.func('kept', INT, BOOL)
    u = [f(k) for f in un]
    ax = [forall([k], Implies(inr(k, N), V(k) == q(u[1], u[2], u[0])), [V(k)]), forall([k], Implies(inr(k, N), bit(k) == (V(k) != 0)), [bit(k)])]
    return q, V, bit, flat, un, N, ax


def encoded(pb, p, shape, S, rank, pos, V, bit, N):
    md = pb['metadata']
    sh, pr, mask, res = md['shape'], md['quant_precision'], pb['mask'], pb['residual']
    cnt = rank(N)
    return [('shape', And(sh.n == 3, *[sh[d] == shape[d] for d in range(3)])),
            ('precision', And(pr.n == shape[2], forall([c], Implies(inr(c, shape[2]), pr[c] == p(c)), [pr[c]]))),
            ] + [('mask: ' + n, f) for n, f in runs(S, mask.n, lambda x: mask[x], N, bit)] + [('kept: ' + n, f) for n, f in enumeration(rank, pos, N, bit)] + [
            ('one residual per kept value', res.n == cnt),
            ('first residual', Implies(cnt > 0, res[I0] == V(pos(I0)))),
            ('residuals', forall([j], Implies(And(j >= 0, j + 1 < cnt), res[j + 1] == V(pos(j + 1)) - V(pos(j))), [pos(j + 1)]))]


def quiet(E):
    """that rounding gives a nearest integer is only used by the lemmas at the end"""
    E.constcache[('round',)] = 1
    E.assumed.add('np.round: a nearest integer')
    return []


def build(S):
    # ---- run lengths
    def enc(E, A, r, p):
        x = A.x
        n = x.n
        rank, pos = E.last_select
        start = lambda q: If(q <= 0, I0, If(q > rank(n - 1), n, pos(q - 1) + 1))
        zero = x(I0) == 0
        T = lambda q: If(zero, start(q - 1), start(q))
        E.induct('values follow the number of changes', n - 1, lambda q: And(rank(q) >= 0, (x(q) != 0) == ((rank(q) % 2 == 0) == Not(zero))), lambda q: [rank(q)])
        E.induct('the number of changes grows', n - 1, lambda q: forall([a], Implies(And(a >= 0, a <= q), rank(a) <= rank(q)), [rank(a)]))
        ST = E.func('run start', INT, INT)
        E.assume(forall([a], ST(a) == T(a), [ST(a)]))
        bit = E.func('bit', INT, BOOL)
        E.assume(forall([a], bit(a) == (x(a) != 0), [bit(a)]))
        return runs(ST, r.n, lambda q: r(q), n, bit)
    bits = lambda E, A: [A.x.n > 0, forall([i], Implies(inr(i, A.x.n), Or(A.x(i) == 0, A.x(i) == 1)), [A.x(i)])]
    S.pyfn(MOD, '_rlencode', dict(x=('nd', 'int', [None])), requires=bits, ensures=enc)

    def dec_ghost(E, A):
        ST, bit, N = E.func('run start', INT, INT), E.func('bit', INT, BOOL), z3.Int('number of bits')
        return ST, bit, N, [f for _, f in runs(ST, A.lengths.n, lambda q: A.lengths(q), N, bit)] + [forall([j], Implies(And(j >= 0, j <= A.lengths.n), And(ST(j) >= 0, ST(j) <= N)), [ST(j)])]

    def dinv(E, L):
        ST, bit, N, _ = dec_ghost(E, E.A)
        x = L.v('x')
        return [('cur', P.term(L.v('cur')) == 1 - L.k % 2), ('length', x.n == ST(L.k)),
                ('bits', forall([i], Implies(inr(i, ST(L.k)), item(x, i) == If(bit(i), z3.IntVal(1), I0)), [bit(i)]))]
    S.pyfn(MOD, '_rldecode', dict(lengths=('nd', 'int', [None])), requires=lambda E, A: dec_ghost(E, A)[3], loops={0: dinv},
           ensures=lambda E, A, r, p: [('length', r.n == z3.Int('number of bits')), ('bits', forall([i], Implies(inr(i, z3.Int('number of bits')), r(i) == If(E.func('bit', INT, BOOL)(i), z3.IntVal(1), I0)), [E.func('bit', INT, BOOL)(i)]))])

    # ---- compress
    def enc_call(E, A, r):
        E.ghost_runs = E.freshf('run start', INT, INT)
        bit = E.freshf('bit', INT, BOOL)
        E.ghost_bit = bit
        return [forall([i], Implies(inr(i, A.x.n), bit(i) == (A.x(i) != 0)), [bit(i)])] + [f for _, f in runs(E.ghost_runs, r.n, lambda q: r(q), A.x.n, bit)]
    rl = {'_rlencode': P.PyContract(['x'], ('nd', 'int', [None]), requires=lambda E, A: [('non-empty', A.x.n > 0), ('zeros and ones', bits(E, A)[1])], ensures=enc_call)}

    def compress(label, ptype, p, bad):
        shape = lambda A: A.range_image.shape

        def ens(E, A, r, post):
            pb = r.parts[0].parts[0]
            q, V, bit, flat, un, N, ax = image(E, A.range_image, p(A), shape(A))
            for f in ax:
                E.assume(f)
            rank, pos = E.last_select
            return [('compressed as a whole', z3.BoolVal(r.what == 'zlib.compress' and r.parts[0].what == 'serialized'))] + encoded(pb, p(A), shape(A), E.ghost_runs, rank, pos, V, bit, N)

        def chan(E, L):
            I, x = E.A.range_image, L.v('range_image_round')
            return [('shape', And(*[s == t for s, t in zip(x.shape, I.shape)])),
                    ('rounded so far', forall([a, b, c], Implies(And(inr(a, I.shape[0]), inr(b, I.shape[1]), inr(c, I.shape[2])), x(a, b, c) == If(c < L.k, z3.ToReal(pynp.rnd(E, E.div(I(a, b, c), p(E.A)(c)))), I(a, b, c))), [I(a, b, c), x(a, b, c)]))]

        def valid(E, L):
            return [('positive so far', forall([c], Implies(inr(c, L.k), p(E.A)(c) > 0), [p(E.A)(c)]))]
        S.pyfn(MOD, 'compress', dict(range_image=('nd', 'real', [None, None, None]), quant_precision=ptype), label='compress[%s]' % label, callees=rl, opts=dict(ufdiv=True),
               requires=lambda E, A: quiet(E) + [s > 0 for s in shape(A)], ensures=ens, loops={0: valid, 1: chan},
               raises=lambda E, A: {'ValueError': Or(bad(A), *[s > 65535 for s in shape(A)])})
    compress('one precision', 'real', lambda A: (lambda ch: A.quant_precision), lambda A: A.quant_precision <= 0)
    compress('a precision per channel', ('list', 'real'), lambda A: (lambda ch: A.quant_precision[ch]),
             lambda A: Or(A.quant_precision.n != A.range_image.shape[2], z3.Exists([c], And(inr(c, A.quant_precision.n), A.quant_precision[c] <= 0))))

    # ---- decompress what compress wrote
    def setting(E):
        pb = E.proto(E.P.message(DATA), 'decoded')
        sh = pb['metadata']['shape']
        shape = [sh[z3.IntVal(d)] for d in range(3)]
        I = E.func('original image', INT, INT, INT, REAL)
        p = E.func('precision', INT, REAL)
        return pb, shape, I, p, image(E, I, p, shape)

    def gh(E):
        return E.func('runs of the encoder', INT, INT), E.func('rank of the encoder', INT, INT), E.func('position of the encoder', INT, INT)

    def req(E, A):
        pb, shape, I, p, (q, V, bit, flat, un, N, ax) = setting(E)
        ST, rank, pos = gh(E)
        return [s > 0 for s in shape] + [forall([c], Implies(inr(c, shape[2]), p(c) > 0), [p(c)])] + ax + [f for _, f in encoded(pb, p, shape, ST, rank, pos, V, bit, N)] + [N > 0]

    def dec_call(E, A, r):
        pb, shape, I, p, (q, V, bit, flat, un, N, ax) = setting(E)
        return [r.n == N, forall([i], Implies(inr(i, N), r(i) == If(bit(i), z3.IntVal(1), I0)), [r(i)])]

    def dec_req(E, A):
        pb, shape, I, p, (q, V, bit, flat, un, N, ax) = setting(E)
        ST, rank, pos = gh(E)
        return runs(ST, A.lengths.n, lambda x: A.lengths(x), N, bit)
    rd = {'_rldecode': P.PyContract(['lengths'], ('nd', 'int', [None]), requires=dec_req, ensures=dec_call)}

    def on_select(E, n, rank, pos):
        pb, shape, I, p, (q, V, bit, flat, un, N, ax) = setting(E)
        E.induct('kept values are counted alike', N, lambda x: rank(x) == gh(E)[1](x), lambda x: [rank(x)])

    def on_cumsum(E, n, cs):
        pb, shape, I, p, (q, V, bit, flat, un, N, ax) = setting(E)
        pos = gh(E)[2]
        E.induct('sums of residuals are the kept values', n - 1, lambda x: Implies(n > 0, cs(x) == V(pos(x))), lambda x: [cs(x)])

    def dl(E, L):
        pb, shape, I, p, (q, V, bit, flat, un, N, ax) = setting(E)
        x = L.v('decoded_range_image')
        return [('shape', And(*[s == t for s, t in zip(x.shape, shape)])),
                ('scaled so far', forall([a, b, c], Implies(And(inr(a, shape[0]), inr(b, shape[1]), inr(c, shape[2])), x(a, b, c) == If(c < L.k, z3.ToReal(q(a, b, c)) * p(c), z3.ToReal(q(a, b, c)))), [I(a, b, c)]))]

    def post(E, A, r, _):
        pb, shape, I, p, (q, V, bit, flat, un, N, ax) = setting(E)
        rg = And(inr(a, shape[0]), inr(b, shape[1]), inr(c, shape[2]))
        return [('the shape', z3.BoolVal(len(r.shape) == 3)), ('every dimension', And(*[s == t for s, t in zip(r.shape, shape)])),
                ('a multiple of the step', forall([a, b, c], Implies(rg, r(a, b, c) == z3.ToReal(q(a, b, c)) * p(c)), [I(a, b, c)])),
                ]
    S.pyfn(MOD, 'decompress', dict(compressed_range_image='opaque'), requires=req, callees=rd, loops={0: dl}, ensures=post, opts=dict(ufdiv=True, on_select=on_select, on_cumsum=on_cumsum))
    x, p, n = z3.Reals('x p n')
    S.lemma('a multiple of the step by the nearest integer is within half a step', [p > 0, n - x / p <= R('1/2'), x / p - n <= R('1/2')], And(n * p - x <= p / 2, x - n * p <= p / 2))
    m = z3.Int('m')
    S.lemma('multiples of the step are exact', [p > 0, x == z3.ToReal(m) * p, z3.ToReal(z3.Int('q')) - x / p <= R('1/2'), x / p - z3.ToReal(z3.Int('q')) < R('1/2')], z3.ToReal(z3.Int('q')) * p == x)


def item(x, q):
    try:
        return x[q]
    except P.EmptyElem:
        return I0

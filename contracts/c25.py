"""C25: camera tokens attached to scenarios and decoded with a codebook (womd_camera_utils.py)."""
from spec import *
from wodvc import py as P

MOD = 'waymo_open_dataset/utils/womd_camera_utils.py'
i, j, k = z3.Ints('spec!i spec!j spec!k')


def same(E, a, b, depth=0):
    """equality of two message values (True when they are the same object)"""
    a, b = E.val(a), E.val(b)
    if a is b:
        return True
    if isinstance(a, P.Seq):
        v = z3.Int('same!%d' % depth)
        try:
            e = same(E, a[v], b[v], depth + 1)
        except P.EmptyElem:
            return And(a.n == b.n, a.n == 0)
        return And(a.n == b.n, e if e is True else forall([v], Implies(inr(v, a.n), e)))
    if isinstance(a, P.Pro):
        r = [same(E, a[f], b[f], depth) for f in fields(E, a)]
        r = [x for x in r if x is not True]
        return And(*r) if r else True
    x, y = E.unify(a, b)
    return True if x.eq(y) else x == y


def fields(E, p):
    out = []
    for d in E.P.messages[p.name]['fields']:
        out.append(d['name'])
        if not d['repeated']:
            out.append('has_' + d['name'])
    return out


def build(S):
    def post(E, A, r, _):
        s, c = A.scenario, A.camera_data
        f = 'frame_camera_tokens'
        a, b, q = s[f], c[f], r[f]
        out = [('a scenario', z3.BoolVal(r.name == s.name))]
        for n in fields(E, s):
            if n != f:
                e = same(E, r[n], s[n])
                out.append(('%s copied' % n, z3.BoolVal(True) if e is True else e))
        el = lambda x, y: (lambda e: z3.BoolVal(True) if e is True else e)(same(E, x, y))
        out += [('number of frames', q.n == a.n + b.n), ('the scenario\'s own frames', forall([i], Implies(inr(i, a.n), el(q[i], a[i])))),
                ('the camera frames, in order', forall([i], Implies(inr(i, b.n), el(q[a.n + i], b[i]))))]
        return out
    S.pyfn(MOD, 'add_camera_tokens_to_scenario', dict(scenario=('proto', 'Scenario'), camera_data=('proto', 'Scenario')), ensures=post)

    def bad(E, A):
        t, c = A.input_tokens, A.codebook
        return {'ValueError': z3.Exists([i], And(inr(i, t.shape[0]), Or(t(i) < 0, t(i) >= c.shape[0])))}
    S.pyfn(MOD, 'get_camera_embedding_from_codebook', dict(codebook=('nd', 'real', [None, None]), input_tokens=('nd', 'int', [None])), requires=lambda E, A: [A.input_tokens.shape[0] > 0, A.codebook.shape[0] > 0],
           raises=bad, ensures=lambda E, A, r, p: (lambda r: [
               ('one embedding per token', And(r.shape[0] == A.input_tokens.shape[0], r.shape[1] == A.codebook.shape[1])),
               ('the row of the token', forall([i, j], Implies(And(inr(i, A.input_tokens.shape[0]), inr(j, A.codebook.shape[1])), r(i, j) == A.codebook(A.input_tokens(i), j)), [r(i, j)]))])(E.val(r)))

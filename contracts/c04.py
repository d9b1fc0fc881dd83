"""C04: contracts on the longitudinal-error-tolerant functions."""
from spec import *

CX = ('center_x', 'center_y', 'center_z')
EPS = dbl(1e-6)


def c(E, b):
    return [E.get(b, n) for n in CX]


def dot(u, v):
    return sum((x * y for x, y in zip(u[1:], v[1:])), u[0] * v[0])


def rest_same(E, a, b, but=CX):
    i = E.info(a)
    skip = set(but) | {'has_' + n for n in but}
    return And(*[i.get(a, n) == i.get(b, n) for n, _, _ in i.fields if n not in skip])


def mx(a, b):
    return If(a >= b, a, b)


def build(S):
    S.fn(NS + 'TranslateBox', ensures=lambda E, A, r, p: [
        ('moves the centre by the offset', And(*[E.get(r, n) == E.get(A[0], n) + A[k + 1] for k, n in enumerate(CX)])),
        ('keeps size and heading', rest_same(E, r, A[0]))])

    def align(E, A, r, p):
        pd, gt, m = c(E, A[0]), c(E, A[1]), c(E, r)
        t = A[2]
        q2 = dot(pd, pd)
        lam = dot(pd, gt) / mx(q2, EPS)
        at = lambda k: And(*[m[i] == pd[i] * k for i in range(3)])
        inside = And(lam >= 0, lam < 1)
        return [('size and heading are kept', rest_same(E, r, A[0])),
                ('not aligned: unchanged', Implies(t == 1, at(z3.RealVal(1)))),
                ('range aligned: the point of the line of sight with parameter lambda', Implies(t == 2, at(lam))),
                ('range aligned: the closest point (the remaining error is orthogonal to the line of sight)',
                 Implies(And(t == 2, q2 >= EPS), dot([gt[i] - m[i] for i in range(3)], pd) == 0)),
                ('centre aligned: the ground-truth centre', Implies(t == 3, And(*[m[i] == gt[i] for i in range(3)]))),
                ('further only', Implies(t == 4, at(If(inside, lam, z3.RealVal(1))))),
                ('any closer only', Implies(t == 5, at(If(inside, z3.RealVal(1), lam)))),
                ('between origin and ground truth only', Implies(t == 6, at(mx(lam, z3.RealVal(1))))),
                ('only ever along the line of sight, except for centre alignment', Implies(t != 3, And(m[0] * pd[1] == m[1] * pd[0], m[1] * pd[2] == m[2] * pd[1], m[0] * pd[2] == m[2] * pd[0])))]
    S.fn(NS + 'AlignedPredictionBox', requires=lambda E, A: [A[2] >= 1, A[2] <= 6], ensures=align)

    def cfg(E, A, i):
        s = E.get(A[i], 'sensor_location')
        return [E.get(s, n) for n in 'xyz'], E.get(A[i], 'longitudinal_tolerance_percentage'), E.get(A[i], 'min_longitudinal_tolerance_meter')

    def aff(E, A, r, p):
        s, pct, mn = cfg(E, A, 2)
        gt = [x - y for x, y in zip(c(E, A[1]), s)]
        pd = [x - y for x, y in zip(c(E, A[0]), s)]
        rg, rp = mx(sqrt(E, dot(gt, gt)), EPS), mx(sqrt(E, dot(pd, pd)), EPS)
        tol = mx(pct * rg, mn)
        err = rp * (dot(pd, gt) / rg / rp) - rg
        q = err / tol
        e = 1 - If(q >= 0, q, -q)
        return [('in [0, 1]', And(r >= 0, r <= 1)), ('1 minus the error relative to the tolerance, clamped', r == If(e < 0, z3.RealVal(0), If(e > 1, z3.RealVal(1), e)))]
    # the same in terms of the definition: longitudinal error |P.G/|G| - |G||, tolerance tol
    d, rg, rp, tol, v = z3.Reals('d rg rp tol v')
    hy = [rg > 0, rp > 0, tol > 0]
    S.lemma('the range cancels: the error is the projection on the line of sight minus the range', hy, rp * (d / rg / rp) - rg == d / rg - rg)
    ab = lambda x: If(x >= 0, x, -x)
    S.lemma('affinity is 1 minus error over tolerance, 0 from the tolerance on', [tol > 0, v == 1 - ab(d / tol)],
            And(Implies(ab(d) >= tol, v <= 0), Implies(ab(d) < tol, And(v * tol == tol - ab(d), v > 0, v <= 1))))
    S.lemma('the tolerance never drops below the minimum and is positive', [v > 0, rg > 0, d >= 0], And(mx(d * rg, v) >= v, mx(d * rg, v) > 0))
    S.fn(NS + 'ComputeLongitudinalAffinity', requires=lambda E, A: [E.get(A[2], 'min_longitudinal_tolerance_meter') > 0, E.get(A[2], 'longitudinal_tolerance_percentage') >= 0],
         ensures=aff)

    def letc(E):
        R_ = z3.RealSort()
        LB = E.sort(NS + 'Label_Box')
        iou = z3.Function('spec_iou3', LB, LB, z3.IntSort(), R_)
        al = z3.Function('spec_align', LB, LB, z3.IntSort(), LB)
        tr = z3.Function('spec_translate', LB, R_, R_, R_, LB)
        E.spec = (iou, al, tr)
        mk = lambda n, f: {NS + n: Contract(NS + n, ensures=lambda A, r, p: [r == f(A)])}
        d = mk('ComputeIoU', lambda A: iou(A[0], A[1], A[2]))
        d.update(mk('AlignedPredictionBox', lambda A: al(A[0], A[1], A[2])))
        d.update(mk('TranslateBox', lambda A: tr(A[0], A[1], A[2], A[3])))
        return d

    def let(E, A, r, p):
        iou, al, tr = E.spec
        s = [-E.get(A[2], n) for n in 'xyz']
        P, G = tr(A[0], *s), tr(A[1], *s)
        return [('the IoU of the aligned prediction and the ground truth, both in the sensor frame', r == iou(al(P, G, A[3]), G, A[4]))]
    S.fn(NS + 'ComputeLetIoU', requires=lambda E, A: [A[4] >= 1, A[4] <= 2, A[3] >= 1, A[3] <= 6], callees=letc, ensures=let)

"""C24: detections saved by a latency run become objects (make_objects_file_from_latency_results.py)."""
from fractions import Fraction
from spec import *
from wodvc import py as P
from wodvc.cxxmodels import STR

MOD = 'waymo_open_dataset/latency/make_objects_file_from_latency_results.py'
i = z3.Int('spec!i')
INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
box = z3.Function('saved boxes', INT, INT, REAL)
cls, score = z3.Function('saved classes', INT, INT), z3.Function('saved scores', INT, REAL)
nb, wb, nc, ns, nl = z3.Ints('boxes columns classes scores lines')
line = z3.Function('input line', INT, STR)
exists = z3.Const('exists dir/input_fields.txt', BOOL)
cnt = z3.Function('kept before', INT, INT)
D = lambda x: z3.RealVal(str(Fraction(x)))
FULL = ['center_x', 'center_y', 'center_z', 'length', 'width', 'height', 'heading']
FLAT = ['center_x', 'center_y', 'length', 'width']


def files(E, path):
    name = path.split('/')[-1]
    E.assume(And(nb >= 0, wb >= 0, nc >= 0, ns >= 0, nl >= 0))
    if name == 'boxes.npy':
        return P.Arr([nb, wb], lambda a, c: box(a, c), 'real')
    if name == 'classes.npy':
        return P.Arr([nc], lambda a: cls(a), 'int')
    if name == 'scores.npy':
        return P.Arr([ns], lambda a: score(a), 'real')
    if name == 'input_fields.txt':
        return P.Seq(nl, lambda a: line(a))
    raise P.Unsupported('file %s' % name)


def full():
    return wb == 7


def col(f, k):
    return If(full(), box(k, FULL.index(f)), box(k, FLAT.index(f))) if f in FLAT else box(k, FULL.index(f))


def good(k):
    return And(score(k) >= D(.03), col('length', k) >= D(.01), col('width', k) >= D(.01), Or(Not(full()), col('height', k) >= D(.01)))


def camera():
    L = line(I0)
    ends = z3.Function('str.endswith', STR, STR, BOOL)
    cut = z3.Function('substring', STR, INT, INT, STR)
    return L, ends, cut


def build(S):
    def named(E):
        L, ends, cut = camera()
        c = cut(L, z3.IntVal(-999), z3.IntVal(-6))
        return And(exists, nl == 1, ends(L, E.S.lit('_IMAGE')), z3.Function('declared CameraName_Name', STR, BOOL)(c)), z3.Function('number of CameraName_Name', STR, INT)(c)

    def pre(E, A):
        return [Or(wb == 7, wb == 4), nb >= 0, cnt(I0) == 0, forall([i], Implies(inr(i, nb), cnt(i + 1) == cnt(i) + If(good(i), z3.IntVal(1), I0)), [cnt(i + 1)])]

    def holds(E, A, o, k):
        """the object of detection k"""
        lab = o['object']
        bx = lab['box']
        ok, cam = named(E)
        t = P.term
        return And(t(o['context_name'], E.S) == A.frame_context_name, t(o['frame_timestamp_micros']) == A.frame_timestamp_micros, t(o['score']) == score(k), t(lab['type']) == cls(k),
                   *[t(bx[f]) == col(f, k) for f in FLAT], *[t(bx['has_' + f]) for f in FLAT], t(o['has_score']), t(o['has_context_name']), t(o['has_frame_timestamp_micros']), t(lab['has_type']),
                   *[And(t(bx['has_' + f]) == full(), Implies(full(), t(bx[f]) == col(f, k))) for f in FULL if f not in FLAT],
                   t(o['has_camera_name']) == Not(full()), Implies(Not(full()), t(o['camera_name']) == cam))

    def kept(E, s, upto):
        A = E.A
        out = [('one object per valid detection', s.n == cnt(upto))]
        try:
            e = s[cnt(i)]
        except P.EmptyElem:
            return out
        return out + [('the detection, unchanged', forall([i], Implies(And(inr(i, upto), good(i)), holds(E, A, E.val(e), i)), [cnt(i)]))]

    def loop(E, L):
        r = L.v('obj_list')
        return [('counts', forall([i], Implies(And(i >= 0, i <= L.k), And(cnt(i) >= 0, cnt(i) <= cnt(L.k))), [cnt(i)])), ('in order', forall([i], Implies(And(inr(i, L.k), good(i)), cnt(i) < cnt(L.k)), [cnt(i)])),
                ('a camera for 2D boxes', Or(full(), L.k == 0, named(E)[0])), ('files agree', And(nc == nb, ns == nb))] + kept(E, r, L.k)
    S.pyfn(MOD, 'make_object_list_from_subdir', dict(np_dir=('const', 'dir'), frame_context_name='str', frame_timestamp_micros='int'), opts=dict(files=files), requires=pre, loops={0: loop},
           ensures=lambda E, A, r, p: kept(E, E.val(r), nb),
           raises=lambda E, A: {'AssertionError': Or(nc != nb, ns != nb), 'ValueError': And(nc == nb, ns == nb, nb > 0, Not(full()), Not(named(E)[0]))})

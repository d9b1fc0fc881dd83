"""C07: contracts on every BreakdownGenerator class."""
from spec import *

Q = z3.Int('spec!q')


def ty(E, A):
    return g(E, A[0], 'object.type')


def hyp3(E, A):
    b = g(E, A[0], 'object.box')
    x, y, z = [E.get(b, 'center_' + c) for c in 'xyz']
    return x * x + y * y + z * z


TYPES = lambda E, A: [ty(E, A) >= 0, ty(E, A) <= 4]
FRONT, FL, FR, SL, SR = 1, 2, 3, 4, 5
CENTRES = [(0, FRONT), (45, FL), (-45, FR), (90, SL), (-90, SR)]


def deg(E, A):
    b = g(E, A[0], 'object.box')
    at = E.func('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())(E.get(b, 'center_y'), E.get(b, 'center_x'))
    return at


def hit(E, A, c):
    import math
    d = deg(E, A) * dbl(180.0 / math.pi)
    return And(d > z3.RealVal(c) - dbl(25.2), d < z3.RealVal(c) + dbl(25.2))


def clear(E, A):
    """the bearing is not within 1e-9 degree of an edge, where the rounding of the constants decides"""
    import math
    d = deg(E, A) * dbl(180.0 / math.pi)
    eps = z3.RealVal('1/1000000000')
    return And(*[Or(d - (c + s * dbl(25.2)) > eps, d - (c + s * dbl(25.2)) < -eps) for c, _ in CENTRES for s in (1, -1)])



def camera_offset(E, n):
    r = z3.IntVal(-1)
    for v, k in ((FRONT, 0), (FL, 1), (FR, 2), (SL, 3), (SR, 4)):
        r = If(n == v, z3.IntVal(k), r)
    return r


def build(S):
    # --- object type
    C = lambda n: NS + 'BreakdownGenerator' + n
    S.fn(C('OneShard::Shard'), ensures=lambda E, A, r, p: [('the only shard is 0', r == 0)])
    S.fn(C('OneShard::NumShards'), ensures=lambda E, A, r, p: [('one shard', r == 1)])
    S.fn(C('AllButSign::NumShards'), ensures=lambda E, A, r, p: [('two shards', r == 2)])
    S.fn(C('AllButSign::Shard'), requires=TYPES, ensures=lambda E, A, r, p: [
        ('signs in shard 1, everything else in shard 0', r == If(ty(E, A) == 3, z3.IntVal(1), z3.IntVal(0))), ('in range', inr(r, 2))])
    S.fn(C('ObjectType::NumShards'), ensures=lambda E, A, r, p: [('four types', r == 4)])
    S.fn(C('ObjectType::Shard'), requires=TYPES, ensures=lambda E, A, r, p: [
        ('shard is the type minus one, none for unknown', r == ty(E, A) - 1), ('in range or none', And(r >= -1, r < 4))])
    for n, per in (('Range', 3), ('Size', 2), ('Velocity', 5), ('Camera', 5)):
        S.fn(C(n + '::NumShards'), ensures=lambda E, A, r, p, per=per: [('shards per type times four types', r == 4 * per)])
    create(S)

    def rng(E, A, r, p):
        t, d = ty(E, A), hyp3(E, A)
        return [('unknown type has no shard', Implies(t == 0, r == -1)),
                ('range bucket: [0,30), [30,50), [50,inf) of the 3D centre distance',
                 Implies(t > 0, r == 3 * (t - 1) + If(d < 900, z3.IntVal(0), If(d < 2500, z3.IntVal(1), z3.IntVal(2))))),
                ('in range or none', And(r >= -1, r < 12)), ('belongs to the type', Implies(t > 0, And(r >= 3 * (t - 1), r < 3 * t)))]
    S.fn(C('Range::Shard'), requires=TYPES, ensures=rng)

    def size(E, A, r, p):
        t = ty(E, A)
        b = g(E, A[0], 'object.box')
        big = Or(*[E.get(b, d) >= 7 for d in ('length', 'width', 'height')])
        return [('unknown type has no shard', Implies(t == 0, r == -1)),
                ('size bucket: large iff the largest dimension is at least 7', Implies(t > 0, r == 2 * (t - 1) + If(big, z3.IntVal(1), z3.IntVal(0)))),
                ('in range or none', And(r >= -1, r < 8))]
    S.fn(C('Size::Shard'), requires=TYPES, ensures=size)

    def vel(E, A, r, p):
        t = ty(E, A)
        m = g(E, A[0], 'object.metadata')
        has = And(E.get(m, 'has_speed_x'), E.get(m, 'has_speed_y'))
        x = If(has, E.get(m, 'speed_x'), z3.RealVal(0))
        y = If(has, E.get(m, 'speed_y'), z3.RealVal(0))
        v2 = x * x + y * y
        f02 = dbl(0.2, 32)
        b = If(v2 < f02 * f02, z3.IntVal(0), If(v2 < 1, z3.IntVal(1), If(v2 < 9, z3.IntVal(2), If(v2 < 100, z3.IntVal(3), z3.IntVal(4)))))
        return [('unknown type has no shard', Implies(t == 0, r == -1)),
                ('velocity bucket: 0.2, 1, 3, 10 m/s on the 2D speed', Implies(t > 0, r == 5 * (t - 1) + b)), ('in range or none', And(r >= -1, r < 20))]
    S.fn(C('Velocity::Shard'), requires=TYPES, ensures=vel)

    def velm(E, A, r, p):
        t = ty(E, A)
        i = z3.Int('spec!i')
        return [('unknown type matches in no shard', Implies(t == 0, E.len(r) == 0)),
                ('all five buckets of the type', Implies(t > 0, And(E.len(r) == 5, *[E.at(r, k) == 5 * (t - 1) + k for k in range(5)])))]
    S.fn(C('Velocity::ShardsForMatching'), requires=TYPES, ensures=velm)

    # --- camera
    S.fn(C('Camera::Is2DCamera'), ensures=lambda E, A, r, p: [('2D exactly when the camera name is set', r == E.get(A[0], 'has_camera_name'))])
    S.fn(C('Camera::GetShardOffsetByCameraName'), requires=lambda E, A: [A[0] >= 0, A[0] <= 8], ensures=lambda E, A, r, p: [
        ('offset of each camera', r == camera_offset(E, A[0]))])

    def fov(E, A, r, p):
        i, n = z3.Int('spec!i'), E.len(r)
        out = [('camera %d listed iff the centre is inside its field of view' % name, Implies(clear(E, A), Or(
            *[And(n > j, E.at(r, j) == name) for j in range(3)]) == hit(E, A, c))) for c, name in CENTRES]
        out.append(('only the five ring cameras, at most three, in their fixed order',
                    And(n >= 0, n <= 3, z3.ForAll([i], Implies(inr(i, n), And(E.at(r, i) >= 1, E.at(r, i) <= 5))),
                        And(*[Implies(n > j + 1, E.at(r, j) < E.at(r, j + 1)) for j in range(2)]))))
        return out
    S.fn(C('Camera::EstimateCameraNamesByFov'), ensures=fov)

    def cam_callees(E):
        from wodvc.cxxsorts import STR
        val = z3.Function('camera_name_value', STR, z3.IntSort())      # -1 when the text names no camera
        c = {}
        # generated by protoc: true and the value when the text is one of the enum's names
        c[NS + 'CameraName::Name_Parse'] = Contract(NS + 'CameraName::Name_Parse', modifies=('arg1',), ensures=lambda A, r, p: [
            val(A['arg0']) >= -1, val(A['arg0']) <= 8, r == (val(A['arg0']) >= 0), p['arg1'] == If(r, val(A['arg0']), A['arg1'])])
        q = C('Camera::EstimateCameraNamesByFov')
        c[q] = Contract(q, ensures=lambda A, r, p: fov(E, A, r, p))
        return c

    def cam(E, A, r, p):
        t = ty(E, A)
        from wodvc.cxxsorts import STR
        val = z3.Function('camera_name_value', STR, z3.IntSort())
        mv = g(E, A[0], 'object.most_visible_camera_name')
        return [('unknown type has no shard', Implies(t == 0, r == -1)),
                ('a 3D object uses its most visible camera when given', Implies(And(t > 0, Not(E.get(A[0], 'has_camera_name')), g(E, A[0], 'object.has_most_visible_camera_name')),
                 r == If(Or(val(mv) < 1, val(mv) > 5), z3.IntVal(-1), 5 * (t - 1) + val(mv) - 1))),
                ('otherwise the first camera whose field of view holds the centre', Implies(
                    And(t > 0, Not(E.get(A[0], 'has_camera_name')), Not(g(E, A[0], 'object.has_most_visible_camera_name')), clear(E, A)),
                    r == If(hit(E, A, 0), 5 * (t - 1), If(hit(E, A, 45), 5 * (t - 1) + 1, If(hit(E, A, -45), 5 * (t - 1) + 2, If(
                        hit(E, A, 90), 5 * (t - 1) + 3, If(hit(E, A, -90), 5 * (t - 1) + 4, z3.IntVal(-1)))))))),
                ('in range or none', And(r >= -1, r < 20)),
                ('belongs to the type', Implies(r >= 0, And(r >= 5 * (t - 1), r < 5 * t))),
                ('a 2D object uses its own camera', Implies(And(t > 0, E.get(A[0], 'has_camera_name')),
                 r == If(camera_offset(E, E.get(A[0], 'camera_name')) < 0, z3.IntVal(-1), 5 * (t - 1) + camera_offset(E, E.get(A[0], 'camera_name')))))]
    cn = lambda E, A: TYPES(E, A) + [E.get(A[0], 'camera_name') >= 0, E.get(A[0], 'camera_name') <= 8]
    S.fn(C('Camera::Shard'), requires=cn, ensures=cam, callees=cam_callees)

    def camm(E, A, r, p):
        t = ty(E, A)
        i = z3.Int('spec!i')
        return [('unknown type matches in no shard', Implies(t == 0, E.len(r) == 0)),
                ('every listed shard belongs to the type ',
                 Implies(t > 0, z3.ForAll([i], Implies(inr(i, E.len(r)), And(E.at(r, i) >= 5 * (t - 1), E.at(r, i) < 5 * t))))),
                ('a 2D object matches in its own camera only', Implies(And(t > 0, E.get(A[0], 'has_camera_name')), If(
                    camera_offset(E, E.get(A[0], 'camera_name')) < 0, E.len(r) == 0,
                    And(E.len(r) == 1, E.at(r, 0) == 5 * (t - 1) + camera_offset(E, E.get(A[0], 'camera_name')))))),
                ('a 3D object matches in every camera whose field of view holds it', Implies(And(t > 0, Not(E.get(A[0], 'has_camera_name'))),
                 And(*[Implies(clear(E, A), Or(*[And(E.len(r) > j, E.at(r, j) == 5 * (t - 1) + n - 1) for j in range(3)]) == hit(E, A, c)) for c, n in CENTRES])))]
    S.fn(C('Camera::ShardsForMatching'), requires=cn, callees=cam_callees, ensures=camm, loops={0: lambda E, L: [
        ('filled', z3.ForAll([Q], Implies(inr(Q, L.v('i')), E.at(L.v('shards'), Q) == L.v('shard_offset') + E.at(L.v('camera_names'), Q) - 1))),
        ('len', E.len(L.v('shards')) == E.len(L.v('camera_names')))]})


CLASSES = {NS + 'BreakdownGenerator' + n: v for n, v in (('OneShard', 1), ('ObjectType', 2), ('Range', 3), ('Velocity', 7), ('AllButSign', 8), ('Size', 9), ('Camera', 10))}


def create(S):
    """Create gives an object of the class whose Id() is the id"""
    S.fn(NS + 'BreakdownGenerator::Create', opts=dict(class_ids=CLASSES), requires=lambda A: [Or(*[A[0] == v for v in CLASSES.values()])], ensures=lambda E, A, r, p: [
        ('the generator of the id', And(E.get(r, 'has'), E.get(E.get(r, 'val'), '__id') == A[0]))])
    for c, v in CLASSES.items():
        S.fn(c + '::Id', ensures=lambda E, A, r, p, v=v: [('its own id', r == v)])

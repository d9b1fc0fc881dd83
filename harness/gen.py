"""Random messages shared by the harness modules."""
import math
from waymo_open_dataset import label_pb2
from waymo_open_dataset.protos import metrics_pb2
Label = label_pb2.Label
ONE_SHARD, OBJECT_TYPE, RANGE, VELOCITY, ALL_BUT_SIGN, SIZE, CAMERA = 1, 2, 3, 7, 8, 9, 10


def gens():
    from waymo_open_dataset.protos import breakdown_pb2
    B = breakdown_pb2.Breakdown
    return {n: B.GeneratorId.Value(n) for n in ('ONE_SHARD', 'OBJECT_TYPE', 'RANGE', 'VELOCITY', 'ALL_BUT_SIGN', 'SIZE', 'CAMERA')}


CAMS = ['UNKNOWN', 'FRONT', 'FRONT_LEFT', 'FRONT_RIGHT', 'SIDE_LEFT', 'SIDE_RIGHT']


def box(r, spread=10.0, aligned=False, near=None):
    b = Label.Box()
    if near is not None and r.random() < 0.75:
        b.CopyFrom(near)
        k = r.random()
        if k < .2:
            return b
        b.center_x += r.uniform(-1.5, 1.5)
        b.center_y += r.uniform(-1.5, 1.5)
        if k > .5:
            b.center_z += r.uniform(-.5, .5)
            b.length *= r.uniform(.8, 1.2)
            b.width *= r.uniform(.8, 1.2)
        if not aligned and k > .7:
            b.heading += r.uniform(-.5, .5)
        return b
    b.center_x, b.center_y, b.center_z = r.uniform(-spread, spread), r.uniform(-spread, spread), r.uniform(-2, 2)
    b.length, b.width, b.height = r.choice([.5, 1, 2, 4, r.uniform(.1, 10)]), r.choice([.5, 1, 2, r.uniform(.1, 4)]), r.choice([1, 2, r.uniform(.2, 4)])
    b.heading = 0 if aligned else r.choice([0, math.pi / 2, math.pi, -math.pi / 2, r.uniform(-7, 7), r.uniform(-7, 7)])
    return b


def obj(r, spread=10.0, near=None, types=(1, 2, 3, 4), score=None, frame=0, aligned=False, extra=True):
    o = metrics_pb2.Object()
    o.object.box.CopyFrom(box(r, spread, aligned, near.object.box if near is not None else None))
    o.object.type = near.object.type if near is not None and r.random() < .8 else r.choice(types)
    o.score = score if score is not None else r.choice([0, .1, .25, .5, .5, .75, .9, 1.0, r.random(), r.random(), r.random()])
    o.context_name = 'c'
    o.frame_timestamp_micros = frame
    if extra and r.random() < .7:
        o.object.metadata.speed_x = r.choice([0, .1, .5, 2, 5, -20, r.uniform(-15, 15)])
        o.object.metadata.speed_y = r.choice([0, 0, -.1, 2, r.uniform(-15, 15)])
        o.object.metadata.accel_x = r.uniform(-1, 1)
        o.object.metadata.accel_y = r.uniform(-1, 1)
    if extra and r.random() < .2:
        o.overlap_with_nlz = True
    return o


def objs(l):
    m = metrics_pb2.Objects()
    m.objects.extend(l)
    return m


def show(m):
    from google.protobuf import text_format
    return text_format.MessageToString(m, as_one_line=True)

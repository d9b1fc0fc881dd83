"""C24: detections saved in a scratch directory and converted by the real code."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.latency import make_objects_file_from_latency_results as M

RULE = '0-12 detections with 3D or 2D boxes, valid or not, with and without input fields, mismatched counts'
FULL = ['center_x', 'center_y', 'center_z', 'length', 'width', 'height', 'heading']
FLAT = ['center_x', 'center_y', 'length', 'width']
CAMS = {k: v for k, v in dataset_pb2.CameraName.Name.items()}


def run(H):
    r = H.r
    npr = np.random.RandomState(r.randrange(2**31))
    d = tempfile.mkdtemp(prefix='c24-')

    def one():
        n, full = r.choice([0, 1, 2, 5, 12]), r.random() < .6
        names = FULL if full else FLAT
        b = npr.uniform(.5, 9, size=(n, len(names)))
        for f in ('center_x', 'center_y', 'center_z', 'heading'):
            if f in names:
                b[:, names.index(f)] = npr.uniform(-99, 99, size=n)
        s = npr.uniform(.05, 1, size=n)
        for k in range(n):
            q = r.random()
            if q < .1:
                s[k] = r.choice([0, .02, .0299, .04, .0301])
            elif q < .35:
                b[k, names.index(r.choice([f for f in names if f in ('length', 'width', 'height')]))] = r.choice([0, -1, .005, .0099, .0101, .02])
            elif q < .4:
                b[k, names.index('center_x')] = 0
        b = b.astype(r.choice([np.float32, np.float64]))
        s = s.astype(r.choice([np.float32, np.float64]))
        c = npr.randint(0, 5, size=n).astype(np.uint8)
        good = [k for k in range(n) if float(np.float32(s[k])) >= .03 and all(float(b[k, names.index(f)]) >= .01 for f in ('length', 'width', 'height') if f in names)]
        lines = None
        if not full or r.random() < .3:
            lines = r.choice([None, [], ['FRONT_IMAGE'], ['SIDE_LEFT_IMAGE'], ['REAR_RIGHT_IMAGE'], ['FRONT_LEFT_IMAGE'], ['SIDE_RIGHT_IMAGE'], ['FRONT_IMAGE', 'FRONT_LEFT_IMAGE'], ['FRONT_RANGE_IMAGE_FIRST_RETURN'], ['FRONT'], ['TOP_IMAGE'], ['FRONT_IMAGES']])
        bad = None
        cc, ss = c, s
        if r.random() < .1:
            bad = r.choice(['c', 's'])
            if bad == 'c':
                cc = np.append(c, 1).astype(np.uint8) if not n or r.random() < .5 else c[:-1]
            else:
                ss = np.append(s, .5).astype(s.dtype) if not n or r.random() < .5 else s[:-1]
        want = 'AssertionError' if bad else None
        cam = None
        if not want and not full and n:
            x = lines[0][:-6] if lines and len(lines) == 1 and lines[0].endswith('_IMAGE') else None
            cam = CAMS.get(x)
            if cam is None:
                want = 'ValueError'
        ctx, ts = r.choice(['a', 'ctx-7', 'x_y']), r.choice([0, 5, 1553735853462203])
        H.case(lambda: [b.tolist(), c.tolist(), s.tolist(), lines, bad, ctx, ts], key=(b.tobytes(), c.tobytes(), s.tobytes(), str(lines), bad, ctx, ts))
        for f, a in (('boxes', b), ('classes', cc), ('scores', ss)):
            np.save(os.path.join(d, f + '.npy'), a)
        p = os.path.join(d, 'input_fields.txt')
        if os.path.exists(p):
            os.remove(p)
        if lines is not None:
            with open(p, 'w') as f:
                f.write('\n'.join(lines))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                o = M.make_object_list_from_subdir(d, ctx, ts)
            got = None
        except Exception as e:
            got, o = type(e).__name__, None
        H.check('reject', got == want, lambda: 'raised %s, expected %s' % (got, want))
        if got or want:
            return
        H.check('count', len(o) == len(good), lambda: '%d objects, expected %d' % (len(o), len(good)))
        if len(o) != len(good):
            return
        for x, k in zip(o, good):
            bx = x.object.box
            H.check('identity', x.context_name == ctx and x.frame_timestamp_micros == ts and x.HasField('frame_timestamp_micros'), 'context name or timestamp')
            H.check('score', x.score == float(np.float32(s[k])), lambda: 'score %r, expected %r' % (x.score, s[k]))
            H.check('type', x.object.type == c[k] and x.object.HasField('type'), lambda: 'type %r, expected %r' % (x.object.type, c[k]))
            for f in FULL:
                H.check('box', bx.HasField(f) == (f in names) and (f not in names or getattr(bx, f) == float(b[k, names.index(f)])), lambda: '%s is %r' % (f, getattr(bx, f)))
            H.check('camera', x.HasField('camera_name') == (not full) and (full or x.camera_name == cam), lambda: 'camera %r, expected %r' % (x.camera_name, cam))

    try:
        H.phases((1, one))
    finally:
        shutil.rmtree(d, ignore_errors=True)

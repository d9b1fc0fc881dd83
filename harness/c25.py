"""C25: tokens attached and decoded by the real code."""
import numpy as np
from waymo_open_dataset.protos import scenario_pb2
from waymo_open_dataset.utils import womd_camera_utils as W

RULE = 'scenarios with 0-4 frames of their own and 0-12 camera frames of 0-8 cameras with 1-30 tokens; codebooks of 1-60 rows, 1-50 tokens, in and just out of range'


def run(H):
    r = H.r
    npr = np.random.RandomState(r.randrange(2**31))

    def frames(s, n):
        for _ in range(n):
            f = s.frame_camera_tokens.add()
            for _ in range(r.randint(0, 8)):
                c = f.camera_tokens.add()
                c.camera_name = r.randint(0, 8)
                c.tokens.extend(r.randrange(8192) for _ in range(r.randint(1, 30)))

    def attach():
        a, b = scenario_pb2.Scenario(), scenario_pb2.Scenario()
        a.scenario_id = r.choice(['a', 'b'])
        a.sdc_track_index = r.choice([0, 1])
        for _ in range(r.randint(0, 3)):
            a.tracks.add().id = r.randrange(9)
            a.timestamps_seconds.append(r.random())
        frames(a, r.choice([0, 0, 1, 4]))
        if r.random() < .3:
            b.scenario_id = r.choice(['a', 'c'])
            b.tracks.add().id = 77
            b.timestamps_seconds.append(1)
        frames(b, r.choice([0, 1, 2, 11, 12]))
        a0, b0 = a.SerializeToString(), b.SerializeToString()
        H.case(lambda: ['attach', a0.hex(), b0.hex()], key=(a0, b0))
        try:
            o = W.add_camera_tokens_to_scenario(a, b)
        except Exception as e:
            H.fail('attach', '%s: %s' % (type(e).__name__, e))
            return
        H.check('arguments', a.SerializeToString() == a0 and b.SerializeToString() == b0, 'the arguments were modified')
        H.check('frames', [f.SerializeToString() for f in o.frame_camera_tokens] == [f.SerializeToString() for f in list(a.frame_camera_tokens) + list(b.frame_camera_tokens)], 'frames are not those of the scenario followed by those of the camera data')
        x, y = scenario_pb2.Scenario.FromString(o.SerializeToString()), scenario_pb2.Scenario.FromString(a0)
        del x.frame_camera_tokens[:], y.frame_camera_tokens[:]
        H.check('rest', x.SerializeToString() == y.SerializeToString(), 'another field of the scenario changed')
        n = len(o.frame_camera_tokens)
        if n and a is not o:
            o.frame_camera_tokens[n - 1].camera_tokens.add().tokens.append(5)
            o.tracks.add()
            H.check('separate', a.SerializeToString() == a0 and b.SerializeToString() == b0, 'changing the result changes an argument')

    def decode():
        n, d, m = r.choice([1, 2, 60]), r.choice([1, 2, 32]), r.choice([1, 2, 5, 50])
        C = npr.uniform(-1, 1, size=(n, d)).astype(r.choice([np.float32, np.float64]))
        t = npr.randint(0, n, size=m).astype(r.choice([np.int32, np.int64]))
        k = r.random()
        if k < .15:
            t[r.randrange(m)] = n + r.choice([0, 0, 1, 100])
        elif k < .3:
            t[r.randrange(m)] = -r.choice([1, 1, n, n + 1])
        elif k < .5:
            t[r.randrange(m)] = r.choice([0, n - 1])
        C0, t0 = C.copy(), t.copy()
        H.case(lambda: ['decode', C0.shape, t0.tolist()], key=(C.shape, tuple(t), float(C[0, 0])))
        ok = bool((t0 >= 0).all() and (t0 < n).all())
        try:
            e = W.get_camera_embedding_from_codebook(C, t)
        except ValueError:
            H.check('reject', not ok, 'tokens in range were rejected')
            return
        except Exception as x:
            H.fail('reject', '%s: %s' % (type(x).__name__, x))
            return
        H.check('reject', ok, lambda: 'tokens outside 0..%d were accepted' % (n - 1))
        if ok:
            H.check('rows', e.shape == (m, d) and all(np.array_equal(e[i], C0[t0[i]]) for i in range(m)), 'embeddings are not the rows of the tokens')
        H.check('unmodified', np.array_equal(C, C0) and np.array_equal(t, t0), 'the arguments were modified')
    H.phases((1, attach), (1, decode))

"""C19: range images compressed and decompressed by the real code, compared value by value."""
import numpy as np
from waymo_open_dataset.utils.compression import delta_encoder as de

RULE = 'random float images of 1-9 x 1-9 x 1-4 with every sparsity from empty to full, runs, negative values, halves of the step, values of large magnitude, integer and single-precision arrays, views; one step or a step per channel; invalid steps and over-long images'


def run(H):
    r = H.r
    npr = np.random.RandomState(r.randrange(2**31))

    def image():
        sh = (r.choice([1, 1, 2, 5, 9]), r.choice([1, 1, 2, 7, 9]), r.choice([1, 2, 3, 4]))
        p = [r.choice([0.1, 0.01, 0.005, 0.5, 1.0, 2.0, 0.25, 1, 3e-3]) for _ in range(sh[2])]
        one = r.random() < .4
        if one:
            p = [p[0]] * sh[2]
        x = npr.uniform(-75, 75, size=sh) if r.random() < .6 else npr.uniform(-1e5, 1e5, size=sh)
        if r.random() < .2:
            x = x * 10.0 ** r.randint(1, 7)
        k = r.random()
        if k < .3:
            x = np.round(x / p) * p
        elif k < .45:
            x = (np.floor(x / p) + .5) * p
        elif k < .55:
            x = x * 0 + r.choice([0.0, 1.0, -3.0])
        m = r.random()
        if m < .7:
            x = np.where(npr.random_sample(sh) < r.choice([0.0, .1, .5, .9, 1.0]), x, 0.0)
        elif m < .85:
            f = x.reshape(-1)
            for _ in range(3):
                a = r.randrange(f.size)
                f[a:a + r.randint(0, 20)] = 0
        if r.random() < .12:
            x = x.astype(np.float32)
        elif r.random() < .12:
            x = np.round(x).astype(np.int64)
        if r.random() < .15:
            big = np.zeros((sh[0] * 2,) + sh[1:], x.dtype)
            big[::2] = x
            x = big[::2]
        return x, p, one

    def trip():
        x, p, one = image()
        q = p[0] if one else (p if r.random() < .7 else np.array(p, float))
        H.case(lambda: ['round trip', str(x.dtype), list(x.shape), x.reshape(-1).tolist(), p, one], key=(x.tobytes(), tuple(p), one))
        before, pb = x.copy(), list(p)
        try:
            c = de.compress(x, q)
        except Exception as e:
            H.fail('compress', '%s: %s' % (type(e).__name__, e))
            return
        H.check('image unchanged', np.array_equal(x, before), lambda: 'compress changed the image of the caller to %s' % x.reshape(-1)[:20].tolist())
        H.check('steps unchanged', list(p) == pb, 'compress changed the list of steps')
        x = before
        try:
            y = de.decompress(c)
        except Exception as e:
            H.fail('decompress', '%s: %s' % (type(e).__name__, e))
            return
        H.check('shape', y.shape == x.shape, lambda: 'shape %s, expected %s' % (y.shape, x.shape))
        if y.shape == x.shape:
            P = np.array(p, float)
            tol = .5 * P + 1e-6 * P + (3e-7 if x.dtype != np.float32 else 2e-6) * np.abs(x)
            bad = np.abs(y - x) > tol
            H.check('value', not bad.any(), lambda: 'value %r came back as %r with step %r' % (x[bad][0], y[bad][0], p))
            ex = np.abs(np.round(x / P) - x / P) < 1e-9
            bad = ex & (np.abs(y - x) > 3e-7 * np.abs(x) + 1e-9 + (1e-6 * np.abs(x) if x.dtype == np.float32 else 0))
            H.check('multiples of the step', not bad.any(), lambda: 'value %r came back as %r with step %r' % (x[bad][0], y[bad][0], p))
            H.check('zeros', not (y[x == 0] != 0).any(), 'an empty cell came back with a value')
        H.check('deterministic', de.compress(x.copy(), q) == c, 'compressing again gives other bytes')

    def runs():
        n = r.randint(1, 40)
        x = np.array([r.randrange(2) for _ in range(n)] if r.random() < .6 else [r.randrange(2)] * n)
        H.case(lambda: ['runs', x.tolist()], key=x.tobytes())
        e = de._rlencode(x)
        d = de._rldecode(e)
        H.check('runs', list(d) == list(x), lambda: 'decoded as %s' % list(d))
        H.check('run lengths', int(np.sum(e)) == n and (np.asarray(e)[1:] > 0).all() and e[0] >= 0 and ((e[0] == 0) == (x[0] == 0)), lambda: 'run lengths %s of %s' % (list(e), x.tolist()))

    def reject():
        sh = (2, 2, 2)
        k = r.randrange(4)
        q = [0, -1.0, [0.1], [0.1, 0.0]][k] if r.random() < .8 else [0.1, .2, .3]
        x = np.ones(sh)
        if r.random() < .1:
            x, q = np.zeros(r.choice([(65536, 1, 1), (1, 65536, 1)])), 0.1
        H.case(lambda: ['rejected', list(x.shape), q], key=(x.shape, repr(q)))
        try:
            de.compress(x, q)
            H.fail('rejected', 'steps %r for an image of shape %s were accepted' % (q, x.shape))
        except ValueError:
            H.check('rejected', True)
        except Exception as e:
            H.fail('rejected', '%s instead of ValueError: %s' % (type(e).__name__, e))
    H.phases((6, trip), (2, runs), (1, reject))

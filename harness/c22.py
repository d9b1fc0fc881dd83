"""C22: random maps plotted by the real code, the traces compared with the features."""
from waymo_open_dataset.protos import map_pb2
from waymo_open_dataset.utils import plot_maps as Q

RULE = 'maps of 0-9 features of every kind and every declared type, polylines of 0-6 and polygons of 0-6 points, distinct ids'
STYLE = {0: ('black', 'solid'), 1: ('white', 'solid'), 2: ('royalblue', 'solid'), 3: ('magenta', 'solid'), 6: ('lightgray', 'dash'), 7: ('lightgray', 'solid'), 8: ('lightgray', 'solid'),
         9: ('yellow', 'dash'), 10: ('yellow', 'dash'), 11: ('yellow', 'solid'), 12: ('yellow', 'solid'), 13: ('yellow', 'dash'), 15: ('green', 'solid'), 16: ('green', 'solid'), 17: ('red', 'solid'),
         18: ('orange', 'solid'), 19: ('cyan', 'solid'), 20: ('blue', 'solid')}
LINE = {0: 0, 1: 6, 2: 7, 3: 8, 4: 9, 5: 10, 6: 11, 7: 12, 8: 13}
EDGE = {0: 0, 1: 15, 2: 16}


def run(H):
    r = H.r

    def put(p, q):
        p.x, p.y, p.z = q

    def one():
        ids = r.sample(range(1, 60), r.choice([0, 1, 1, 2, 3, 5, 9]))
        F, want = [], []
        for i in ids:
            f = map_pb2.MapFeature()
            f.id = i
            n = r.choice([0, 1, 2, 3, 6])
            P = [tuple(r.choice([0., 1., r.uniform(-99, 99)]) for _ in range(3)) for _ in range(n)]
            k = r.choice(['lane', 'road_line', 'road_line', 'road_edge', 'stop_sign', 'crosswalk', 'speed_bump', 'driveway', 'none'])
            ty = None
            if k in ('lane', 'road_line', 'road_edge'):
                m = getattr(f, k)
                m.SetInParent()
                t = r.choice({'lane': [0, 1, 2, 3], 'road_line': sorted(LINE), 'road_edge': sorted(EDGE)}[k])
                if t or r.random() < .5:
                    m.type = t
                for q in P:
                    put(m.polyline.add(), q)
                ty = {'lane': {0: 0, 1: 1, 2: 2, 3: 3}, 'road_line': LINE, 'road_edge': EDGE}[k][t]
            elif k == 'stop_sign':
                P = [P[0] if P else (1., 2., 3.)]
                put(f.stop_sign.position, P[0])
                ty = 17
            elif k in ('crosswalk', 'speed_bump', 'driveway'):
                m = getattr(f, k)
                m.SetInParent()
                for q in P:
                    put(m.polygon.add(), q)
                P = P + P[:1]
                ty = {'crosswalk': 18, 'speed_bump': 19, 'driveway': 20}[k]
            F.append(f)
            if ty is not None and P:
                want.append((i, ty, P))
        H.case(lambda: [str(f) for f in F], key=str(F))
        F0 = [f.SerializeToString() for f in F]
        got = {}
        real = Q.plot_map_points

        def spy(m):
            got['m'] = [list(a) for a in (m.x, m.y, m.z, m.types, m.ids)]
            return real(m)
        Q.plot_map_points = spy
        try:
            fig = Q.plot_map_features(F)
        except Exception as e:
            H.fail('plot', '%s: %s' % (type(e).__name__, e))
            return
        finally:
            Q.plot_map_points = real
        H.check('arguments', [f.SerializeToString() for f in F] == F0, 'a feature was modified')
        if 'm' in got:
            w = [(q[0], q[1], q[2], ty, i) for i, ty, P in want for q in P]
            g = [(x, y, z, t.value, i) for x, y, z, t, i in zip(*got['m'])]
            H.check('points', g == w and len(set(map(len, got['m']))) == 1, lambda: 'points %s, expected %s' % (g, w))
        tr = list(fig.select_traces({'mode': 'lines'}))
        H.check('traces', len(tr) == len(want), lambda: '%d lines, expected %d' % (len(tr), len(want)))
        if len(tr) != len(want):
            return
        for a, (i, ty, P) in zip(tr, want):
            g = list(zip(a.x, a.y, a.z))
            H.check('line', g == P, lambda: 'line of feature %d is %s, expected %s' % (i, g, P))
            H.check('style', (a.line.color, a.line.dash) == STYLE[ty], lambda: 'style of type %d is %s' % (ty, (a.line.color, a.line.dash)))
        mk = sorted((x, y, z) for a in fig.select_traces({'mode': 'markers'}) if a.x is not None for x, y, z in zip(a.x, a.y, a.z))
        H.check('markers', mk == sorted(q for i, ty, P in want for q in P), 'the scattered points are not the points of the map')
        for a in fig.select_traces({'mode': 'markers'}):
            if a.x is not None and len(a.x):
                H.check('colour', a.marker.color in {STYLE[ty][0] for i, ty, P in want if (a.x[0], a.y[0], a.z[0]) in P}, lambda: 'scattered points of %s are %s' % (a.name, a.marker.color))
    H.phases((1, one))

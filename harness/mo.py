"""Generators of motion metrics configurations, scenarios and predictions."""
import math
from waymo_open_dataset.protos import motion_metrics_pb2 as mp, scenario_pb2 as sc, motion_submission_pb2 as ms


def config(r, small=True):
    c = mp.MotionMetricsConfig()
    c.prediction_steps_per_second = r.choice([1, 1, 2, 5])
    c.track_steps_per_second = c.prediction_steps_per_second * r.choice([1, 1, 2, 3])
    c.track_history_samples = r.choice([0, 1, 2, 4])
    steps = r.choice([1, 2, 3, 5])
    c.track_future_samples = steps * (c.track_steps_per_second // c.prediction_steps_per_second)
    c.speed_lower_bound = r.choice([0.0, 1.4, 2.0])
    c.speed_upper_bound = c.speed_lower_bound + r.choice([0.5, 9.6])
    c.speed_scale_lower = r.choice([0.5, 1.0, 0.25])
    c.speed_scale_upper = r.choice([1.0, 2.0])
    for s in sorted(r.sample(range(steps), min(steps, r.choice([1, 1, 2])))):
        q = c.step_configurations.add()
        q.measurement_step = s
        q.lateral_miss_threshold = r.choice([1.0, 0.5, 3.0])
        q.longitudinal_miss_threshold = r.choice([2.0, 1.0, 6.0])
    c.max_predictions = r.choice([1, 2, 3, 6])
    return c


def steps(c):
    return c.track_future_samples * c.prediction_steps_per_second // c.track_steps_per_second


def state(s, x, y, h, v, valid=True, l=4.5, w=2.0):
    s.center_x, s.center_y, s.center_z = x, y, 0.0
    s.length, s.width, s.height, s.heading = l, w, 1.5, h
    s.velocity_x, s.velocity_y = v * math.cos(h), v * math.sin(h)
    s.valid = valid


def scenario(r, c, ids, types=(1, 2, 3), spread=20.0, gaps=.2, required=None, sid='s'):
    s = sc.Scenario()
    s.scenario_id = sid
    n = c.track_history_samples + c.track_future_samples + 1
    s.current_time_index = c.track_history_samples
    dt = 1.0 / c.track_steps_per_second
    s.timestamps_seconds.extend([i * dt for i in range(n)])
    for i in ids:
        t = s.tracks.add()
        t.id = i
        t.object_type = r.choice(list(types))
        x, y, h = r.uniform(-spread, spread), r.uniform(-spread, spread), r.uniform(-3.1, 3.1)
        v, w = r.choice([0.0, 1.0, 3.0, 12.0]), r.choice([0.0, 0.0, .3, -.3, 1.2, -1.2, 2.5])
        g = r.choice([0, 0, gaps, gaps, 1.0])
        for k in range(n):
            state(t.states.add(), x, y, h, v, r.random() >= g if k != c.track_history_samples or r.random() < .3 else True)
            x, y, h = x + v * dt * math.cos(h), y + v * dt * math.sin(h), h + w * dt
    s.sdc_track_index = 0
    for q in range(len(ids)) if required is None else required:
        s.tracks_to_predict.add().track_index = q
    return s


def trajectory(t, r, c, track, noise):
    """a prediction near the track"""
    ratio = c.track_steps_per_second // c.prediction_steps_per_second
    for k in range(steps(c)):
        st = track.states[min((k + 1) * ratio + c.track_history_samples, len(track.states) - 1)]
        t.center_x.append(st.center_x + r.gauss(0, noise))
        t.center_y.append(st.center_y + r.gauss(0, noise))


def predictions(r, c, s, groups, noise=None, sid='s', njoint=None, conf=None):
    """groups: lists of track indices predicted together"""
    p = ms_preds()
    p.scenario_id = sid
    for g in groups:
        m = p.multi_modal_predictions.add()
        for _ in range(r.choice([1, 1, 2, 3, 7]) if njoint is None else njoint()):
            j = m.joint_predictions.add()
            j.confidence = conf() if conf else r.choice([.1, .2, .5, 1.0, r.random()])
            sd = noise if noise is not None else r.choice([0.0, .1, .6, 2.0])
            for i in g:
                t = j.trajectories.add()
                t.object_id = s.tracks[i].id
                trajectory(t, r, c, s.tracks[i], sd)
    return p


def ms_preds():
    return mp.ScenarioPredictions()


def groups(r, idx):
    idx = list(idx)
    r.shuffle(idx)
    out = []
    while idx:
        k = min(len(idx), r.choice([1, 1, 1, 2, 3]))
        out.append(idx[:k])
        idx = idx[k:]
    return out

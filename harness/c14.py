"""C14: acceptance of motion submissions decided independently; conversion of challenge submissions replayed."""
from h import n1
import mo
from waymo_open_dataset.protos import motion_metrics_pb2 as mp, motion_submission_pb2 as ms

RULE = 'random configurations, scenarios with 1-5 objects and valid submissions, then 0-2 edits (points, objects, joint predictions, ids, track indices, rates, measurement steps); random challenge submissions of both kinds with mismatching counts'


def good_config(c):
    a, b = c.track_steps_per_second, c.prediction_steps_per_second
    if a <= 0 or b <= 0 or b > a or a % b:
        return False
    n = c.track_future_samples * b // a
    return all(0 <= q.measurement_step < n for q in c.step_configurations)


def accept(c, p, s):
    if not good_config(c) or p.scenario_id != s.scenario_id:
        return False
    n = mo.steps(c)
    have = set()
    for m in p.multi_modal_predictions:
        sets = [{t.object_id for t in j.trajectories} for j in m.joint_predictions]
        if any(x != sets[0] for x in sets):
            return False
        if any(len(t.center_x) != n or len(t.center_y) != n for j in m.joint_predictions for t in j.trajectories):
            return False
        have.update(*sets)
    if any(not 0 <= q.track_index < len(s.tracks) for q in s.tracks_to_predict):
        return False
    want = {s.tracks[q.track_index].id for q in s.tracks_to_predict}
    if have != want:
        return False
    size = c.track_history_samples + c.track_future_samples + 1
    used = {s.tracks[q.track_index].id: s.tracks[q.track_index] for q in s.tracks_to_predict}
    return all(len(t.states) == size for t in used.values())


def run(H):
    r = H.r

    def pick(l):
        return l[r.randrange(len(l))] if len(l) else None

    def edit(c, p, s):
        k = r.randrange(16)
        m = pick(p.multi_modal_predictions)
        j = pick(m.joint_predictions) if m else None
        t = pick(j.trajectories) if j else None
        if k == 0 and t:
            del t.center_x[-1:]
        elif k == 1 and t:
            t.center_y.append(0.0)
        elif k == 2 and t:
            t.center_x.append(1.0)
            t.center_y.append(1.0)
        elif k == 3 and t:
            t.object_id = r.choice([1, 2, 3, 99, t.object_id])
        elif k == 4 and j:
            del j.trajectories[-1:]
        elif k == 5 and j:
            j.trajectories.add().CopyFrom(j.trajectories[0]) if len(j.trajectories) else None
        elif k == 6 and m:
            del m.joint_predictions[r.randrange(len(m.joint_predictions)) if len(m.joint_predictions) else 0:]
        elif k == 7 and m:
            q = [mp.JointTrajectories()] + list(m.joint_predictions)
            r.shuffle(q) if r.random() < .5 else None
            del m.joint_predictions[:]
            m.joint_predictions.extend(q)
        elif k == 8:
            del p.multi_modal_predictions[-1:]
        elif k == 9:
            p.multi_modal_predictions.add()
        elif k == 10:
            p.scenario_id = r.choice(['t', '', 's'])
        elif k == 11:
            s.tracks_to_predict.add().track_index = r.choice([-1, len(s.tracks), 0, len(s.tracks) - 1])
        elif k == 12:
            del s.tracks_to_predict[-1:]
        elif k == 13:
            tr = s.tracks[s.tracks_to_predict[0].track_index] if len(s.tracks_to_predict) and 0 <= s.tracks_to_predict[0].track_index < len(s.tracks) else None
            if tr and len(tr.states) > 1:
                tr.states.add().CopyFrom(tr.states[0])
        elif k == 14:
            q = c.step_configurations[0]
            q.measurement_step = r.choice([-1, mo.steps(c), mo.steps(c) + 1, mo.steps(c) - 1]) if c.track_steps_per_second else 0
        elif k == 15:
            w = r.choice(['track_steps_per_second', 'prediction_steps_per_second'])
            setattr(c, w, r.choice([0, -1, 7, 3, 2]))

    def scenario():
        c = mo.config(r)
        n = r.randrange(1, 6)
        ids = r.sample([1, 2, 3, 4, 5, 17, -3, 0], n)
        if r.random() < .1 and n > 1:
            ids[1] = ids[0]
        s = mo.scenario(r, c, ids, required=sorted(r.sample(range(n), r.randrange(1, n + 1))))
        p = mo.predictions(r, c, s, mo.groups(r, [q.track_index for q in s.tracks_to_predict]))
        for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
            edit(c, p, s)
        want = accept(c, p, s)
        H.case(lambda: dict(config=str(c), predictions=str(p)[:600], required=[q.track_index for q in s.tracks_to_predict], ids=ids, expected='accepted' if want else 'rejected'), key=(H.round, H.evals), nontrivial=True)
        got = n1(H.call('stats', c, p, s)[0])
        where = lambda: 'config {%s} scenario %r ids %s tracks to predict %s (%s states) predictions %s' % (
            str(c).replace('\n', ' '), s.scenario_id, ids, [q.track_index for q in s.tracks_to_predict], [len(t.states) for t in s.tracks],
            [[[(t.object_id, len(t.center_x), len(t.center_y)) for t in j.trajectories] for j in m.joint_predictions] for m in p.multi_modal_predictions])
        H.check('accept', bool(got) == want, lambda: 'the submission is %s, expected %s: %s' % (('rejected', 'accepted')[bool(got)], ('rejected', 'accepted')[want], where()))

    def challenge():
        ty = r.choice([0, 1, 1, 2, 2])
        p = mp.ScenarioPredictions()
        k = 2 if ty == 2 else 1
        for _ in range(r.choice([0, 1, 1, 2, 3]) if ty != 2 or r.random() < .2 else r.choice([0, 1, 1])):
            m = p.multi_modal_predictions.add()
            for _ in range(r.choice([0, 1, 2, 6])):
                j = m.joint_predictions.add()
                for _ in range(k if r.random() < .93 else r.choice([0, 1, 2, 3])):
                    j.trajectories.add().object_id = r.randrange(5)
        want = ty in (1, 2) and not (ty == 2 and len(p.multi_modal_predictions) > 1) and all(len(j.trajectories) == k for m in p.multi_modal_predictions for j in m.joint_predictions)
        H.case(lambda: dict(type=ty, predictions=str(p)), key=(H.round, H.evals))
        got = n1(H.call('validate', p, ty)[0])
        H.check('challenge', bool(got) == want, lambda: 'challenge submission of type %d is %s, expected %s: %s' % (
            ty, ('rejected', 'accepted')[bool(got)], ('rejected', 'accepted')[want], [[len(j.trajectories) for j in m.joint_predictions] for m in p.multi_modal_predictions]))

    def convert():
        c = ms.ChallengeScenarioPredictions()
        c.scenario_id = r.choice(['', 'abc', 'xyz'])
        ok = True

        def points(t):
            nonlocal ok
            n = r.choice([0, 1, 2, 16])
            t.center_x.extend([r.uniform(-9, 9) for _ in range(n)])
            t.center_y.extend([r.uniform(-9, 9) for _ in range(n if r.random() < .96 else n + r.choice([1, 2]))])
            if r.random() < .04 and n:
                del t.center_y[-1:]
            ok = ok and len(t.center_x) == len(t.center_y)
        want = mp.ScenarioPredictions()
        want.scenario_id = c.scenario_id

        def dst(j, oid, t):
            q = j.trajectories.add()
            q.object_id = oid
            q.center_x.extend(t.center_x)
            q.center_y.extend(t.center_y)
        kind = r.choice([0, 1, 1, 2, 2, 2])
        if kind == 1:
            c.single_predictions.SetInParent()
            for _ in range(r.choice([0, 1, 2, 3])):
                q = c.single_predictions.predictions.add()
                q.object_id = r.randrange(-3, 9)
                m = want.multi_modal_predictions.add()
                for _ in range(r.choice([0, 1, 2, 6])):
                    t = q.trajectories.add()
                    t.confidence = r.random()
                    points(t.trajectory)
                    j = m.joint_predictions.add()
                    j.confidence = t.confidence
                    dst(j, q.object_id, t.trajectory)
        elif kind == 2:
            c.joint_prediction.SetInParent()
            m = want.multi_modal_predictions.add()
            for _ in range(r.choice([0, 1, 2, 6])):
                t = c.joint_prediction.joint_trajectories.add()
                t.confidence = r.random()
                j = m.joint_predictions.add()
                j.confidence = t.confidence
                k = 2 if r.random() < .95 else r.choice([0, 1, 3])
                ok = ok and k == 2
                for _ in range(k):
                    o = t.trajectories.add()
                    o.object_id = r.randrange(-3, 9)
                    points(o.trajectory)
                    dst(j, o.object_id, o.trajectory)
        else:
            ok = False
        H.case(lambda: dict(submission=str(c)[:800]), key=(H.round, H.evals))
        a, b = H.call('convert', c)
        H.check('convertible', bool(n1(a)) == ok, lambda: 'conversion %s, expected %s: %s' % (bool(n1(a)), ok, str(c)[:500]))
        if ok:
            got = mp.ScenarioPredictions.FromString(b)
            H.check('converted', got == want, lambda: 'converted to %s, expected %s' % (str(got)[:600], str(want)[:600]))
    H.phases((4, scenario), (1, challenge), (2, convert))

"""C23: submissions built, damaged in one or two places and validated by the real code; the expected verdict is computed independently."""
from waymo_open_dataset.protos import scenario_pb2, sim_agents_submission_pb2 as S
from waymo_open_dataset.utils.sim_agents import submission_specs as Q

RULE = 'scenarios of 1-8 tracks valid or not at the current step, both challenges, well-formed submissions of 32 scenes and submissions with 1-2 random damages; evaluation ids for random requests'
FIELDS = ('center_x', 'center_y', 'center_z', 'heading')


def run(H):
    r = H.r
    TYPES = {Q.ChallengeType.SIM_AGENTS: 80, Q.ChallengeType.SCENARIO_GEN: 91}

    def scenario():
        s = scenario_pb2.Scenario()
        s.scenario_id = r.choice(['abc', 'abd', '', 'xyz'])
        s.current_time_index = r.choice([10, 10, 10, 0, 9, 11])
        k = r.randint(1, 8)
        ids = r.sample(range(0, 40), k)
        for i in ids:
            t = s.tracks.add()
            t.id = i
            v = r.random() < .7
            for q in range(r.choice([11, 20, 91])):
                t.states.add().valid = v if q == 10 else r.random() < .5
        s.sdc_track_index = r.randrange(k)
        for _ in range(r.choice([0, 1, 2, 3, 8])):
            s.tracks_to_predict.add().track_index = r.randrange(k)
        return s

    def fillt(t, i, n):
        t.object_id = i
        for f in FIELDS:
            getattr(t, f).extend([0.5] * n)

    def scene(j, ids, n):
        ids = list(ids)
        if r.random() < .5:
            r.shuffle(ids)
        for i in ids:
            fillt(j.simulated_trajectories.add(), i, n)

    def simids(s):
        return [t.id for t in s.tracks if t.states[10].valid]

    def verdict_scene(j, s, n):
        got = [t.object_id for t in j.simulated_trajectories]
        return sorted(got) == sorted(simids(s)) and all(len(getattr(t, f)) == n for t in j.simulated_trajectories for f in FIELDS)

    def damage(j, s, n):
        T = j.simulated_trajectories
        k = r.randrange(7)
        if k == 0 and len(T):
            f = r.choice(FIELDS)
            x = getattr(r.choice(list(T)), f)
            d = r.choice([-1, 1, 'other', 'none'])
            if d == -1:
                del x[-1]
            elif d == 1:
                x.append(1.)
            elif d == 'none':
                del x[:]
            else:
                del x[80 if len(x) > 80 else 0:]
                x.extend([0.] * (171 - n - len(x)))
        elif k == 1 and len(T):
            del T[r.randrange(len(T))]
        elif k == 2 and len(T):
            T.add().CopyFrom(r.choice(list(T)))
        elif k == 3:
            others = [t.id for t in s.tracks if not t.states[10].valid] + [99]
            fillt(T.add(), r.choice(others), n)
        elif k == 4 and len(T) > 1:
            a = r.randrange(len(T))
            T[a].object_id = T[(a + 1) % len(T)].object_id
        elif k == 5 and len(T):
            r.choice(list(T)).object_id = r.choice([t.id for t in s.tracks])
        elif k == 6:
            del T[:]

    def accepted(f):
        try:
            f()
            return True
        except ValueError:
            return False

    def desc(s, j):
        return [s.scenario_id, s.current_time_index, [(t.id, bool(t.states[10].valid), len(t.states)) for t in s.tracks], [[t.object_id] + [len(getattr(t, f)) for f in FIELDS] for t in j.simulated_trajectories]]

    def one_scene():
        s = scenario()
        ct = r.choice(list(TYPES))
        n = TYPES[ct]
        j = S.JointScene()
        scene(j, simids(s), n)
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            damage(j, s, n)
        want = verdict_scene(j, s, n)
        H.case(lambda: ['scene', ct.value, desc(s, j)], key=str(desc(s, j)) + ct.value)
        try:
            got = accepted(lambda: Q.validate_joint_scene(j, s, ct))
        except Exception as e:
            H.fail('scene', '%s: %s' % (type(e).__name__, e))
            return
        H.check('scene', got == want, lambda: 'scene %s but should be %s' % (('accepted' if got else 'rejected'), ('accepted' if want else 'rejected')))

    def rollouts():
        s = scenario()
        ct = r.choice(list(TYPES))
        n = TYPES[ct]
        R = S.ScenarioRollouts()
        k = r.random()
        want = True
        if k < .1:
            want = False
        elif k < .25:
            R.scenario_id = s.scenario_id + r.choice(['x', ' ', 'abc'])
            want = False
        else:
            R.scenario_id = s.scenario_id
        m = r.choice([32, 32, 32, 32, 31, 33, 0, 1])
        good = S.JointScene()
        scene(good, simids(s), n)
        for _ in range(m):
            R.joint_scenes.add().CopyFrom(good)
        d = None
        if m and r.random() < .6:
            d = r.choice([0, m - 1, r.randrange(m)])
            damage(R.joint_scenes[d], s, n)
            want = want and verdict_scene(R.joint_scenes[d], s, n)
        want = want and m == 32
        H.case(lambda: ['rollouts', ct.value, m, R.HasField('scenario_id'), R.scenario_id, d, desc(s, R.joint_scenes[d or 0] if m else good)], key=(ct.value, m, R.scenario_id, d, str(desc(s, R.joint_scenes[d or 0] if m else good))))
        try:
            got = accepted(lambda: Q.validate_scenario_rollouts(R, s, ct) if ct != Q.ChallengeType.SIM_AGENTS or r.random() < .5 else Q.validate_scenario_rollouts(R, s))
        except Exception as e:
            H.fail('rollouts', '%s: %s' % (type(e).__name__, e))
            return
        H.check('rollouts', got == want, lambda: 'submission %s but should be %s' % (('accepted' if got else 'rejected'), ('accepted' if want else 'rejected')))

    def ids():
        s = scenario()
        H.case(lambda: ['ids', [(t.id, bool(t.states[10].valid)) for t in s.tracks], s.sdc_track_index, [t.track_index for t in s.tracks_to_predict]],
               key=str([(t.id, bool(t.states[10].valid)) for t in s.tracks]) + str(s.sdc_track_index) + str([t.track_index for t in s.tracks_to_predict]))
        w = simids(s)
        ev = {s.tracks[s.sdc_track_index].id} | {s.tracks[t.track_index].id for t in s.tracks_to_predict}
        for ct in TYPES:
            g = list(Q.get_sim_agent_ids(s, ct))
            H.check('simulated', g == w, lambda: 'objects to simulate %s, expected %s' % (g, w))
            e = list(Q.get_evaluation_sim_agent_ids(s, ct))
            x = sorted(ev) if ct == Q.ChallengeType.SIM_AGENTS else w
            H.check('evaluated', sorted(e) == sorted(x), lambda: 'objects to evaluate %s, expected %s' % (e, x))
            c = Q.get_submission_config(ct)
            H.check('config', (c.n_simulation_steps, c.n_rollouts, c.current_time_index) == (TYPES[ct], 32, 10), 'configuration')
    H.phases((4, one_scene), (2, rollouts), (2, ids))

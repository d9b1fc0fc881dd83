"""C23: validation of sim-agents submissions (submission_specs.py)."""
from spec import *
from wodvc import py as P

MOD = 'waymo_open_dataset/utils/sim_agents/submission_specs.py'
i, j, t, x = z3.Ints('spec!i spec!j spec!t spec!x')
SCENE, SC, ROLL = ('proto', 'JointScene'), ('proto', 'Scenario'), ('proto', 'ScenarioRollouts')
CT = ('enum', 'ChallengeType')
NOW, ROLLOUTS = 10, 32
FIELDS = ['center_x', 'center_y', 'center_z', 'heading']
INT, BOOL = z3.IntSort(), z3.BoolSort()
ids = z3.Function('objects to simulate', INT, INT)      # the list, as a function of the position
nids = z3.Int('number of objects to simulate')


def steps(A):
    """0 = SIM_AGENTS, 1 = SCENARIO_GEN (order of declaration)"""
    return If(A.challenge_type.t == 0, z3.IntVal(80), z3.IntVal(91))


def kind(A):
    return Or(A.challenge_type.t == 0, A.challenge_type.t == 1)


def valid(s, k):
    return P.term(s['tracks'][k]['states'][z3.IntVal(NOW)]['valid'])


def tid(s, k):
    return P.term(s['tracks'][k]['id'])


def n(s):
    return s['tracks'].n


def ids_of(E, s, r):
    """r is exactly the ids of the tracks valid now, in the order of the tracks"""
    c = E.func('valid tracks before', INT, INT)
    defs = [c(0) == 0, forall([i], Implies(inr(i, n(s)), c(i + 1) == c(i) + If(valid(s, i), z3.IntVal(1), I0)), [c(i + 1)])]
    return c, defs


def states_known(s):
    return forall([i], Implies(inr(i, n(s)), s['tracks'][i]['states'].n > NOW), [s['tracks'][i]['states'].n])


def trajs(sc):
    return sc['simulated_trajectories']


def oid(sc, k):
    return P.term(trajs(sc)[k]['object_id'])


def bad_scene(sc, s, st):
    """the reasons to reject a scene"""
    T = trajs(sc)
    return Or(z3.Exists([t], And(inr(t, T.n), bad_len(sc, t, st))),
              z3.Exists([t], And(inr(t, T.n), forall([i], Implies(inr(i, n(s)), Not(And(valid(s, i), tid(s, i) == oid(sc, t))))))),
              z3.Exists([i], And(inr(i, n(s)), valid(s, i), forall([t], Implies(inr(t, T.n), oid(sc, t) != tid(s, i))))),
              z3.Exists([t, j], And(t >= 0, t < j, j < T.n, oid(sc, t) == oid(sc, j))))


def bad_len(sc, k, st):
    return Or(*[trajs(sc)[k][f].n != st for f in FIELDS])


def at(s, q):
    try:
        return P.term(s[q])
    except P.EmptyElem:
        return None


def build(S):
    # which objects
    S.pyfn(MOD, 'get_submission_config', dict(challenge_type=CT), requires=lambda E, A: [kind(A)], ensures=lambda E, A, r, p: [
        ('the current step is the 11th', P.term(r.fields['current_time_index']) == NOW), ('the number of steps of the challenge', P.term(r.fields['n_simulation_steps']) == steps(A)),
        ('32 rollouts', P.term(r.fields['n_rollouts']) == ROLLOUTS)])

    def simreq(E, A):
        return [kind(A), states_known(A.scenario)] + ids_of(E, A.scenario, None)[1]

    def simpost(E, A, r, _):
        s = A.scenario
        c, defs = ids_of(E, s, r)
        e = at(r, c(i))
        w = z3.Function('spec from', INT, INT)
        return [('one id per valid object', r.n == c(n(s)))] + ([('the ids of the valid objects, in order', forall([i], Implies(And(inr(i, n(s)), valid(s, i)), e == tid(s, i)), [c(i)]))] if e is not None else [])

    def simloop(E, L):
        s = E.A.scenario
        c, defs = ids_of(E, s, None)
        o = L.v('object_ids')
        e = at(o, c(i))
        out = [('as many as valid so far', o.n == c(L.k)), ('counting up', forall([i], Implies(And(i >= 0, i <= L.k), And(c(i) >= 0, c(i) <= c(L.k))), [c(i)])),
               ('a later position for each', forall([i], Implies(And(inr(i, L.k), valid(s, i)), c(i) < c(L.k)), [c(i)]))]
        if e is not None:
            out.append(('their ids', forall([i], Implies(And(inr(i, L.k), valid(s, i)), e == tid(s, i)), [c(i)])))
        return out
    S.pyfn(MOD, 'get_sim_agent_ids', dict(scenario=SC, challenge_type=CT), requires=simreq, loops={0: simloop}, ensures=simpost)

    def simids(E, A, r):
        """what the callers use: a list with exactly the ids of the valid tracks"""
        s = A.scenario
        w, v = E.func('track of', INT, INT), E.func('position of', INT, INT)
        e = P.term(r[j])
        return [forall([j], Implies(inr(j, r.n), And(inr(w(j), n(s)), valid(s, w(j)), tid(s, w(j)) == e)), [e]),
                forall([i], Implies(And(inr(i, n(s)), valid(s, i)), And(inr(v(i), r.n), P.term(r[v(i)]) == tid(s, i))), [tid(s, i)])]
    SIM = P.PyContract(['scenario', 'challenge_type'], ('list', 'int'), requires=lambda E, A: [('known challenge', kind(A)), ('states', states_known(A.scenario))], ensures=simids)
    lemmas(S)

    # objects to evaluate
    def evalreq(E, A):
        s = A.scenario
        q = s['tracks_to_predict']
        return [kind(A), states_known(s), inr(P.term(s['sdc_track_index']), n(s)), forall([i], Implies(inr(i, q.n), inr(P.term(q[i]['track_index']), n(s))), [P.term(q[i]['track_index'])])]

    def asked(s, xx, upto):
        q = s['tracks_to_predict']
        return Or(xx == tid(s, P.term(s['sdc_track_index'])), z3.Exists([i], And(inr(i, upto), xx == tid(s, P.term(q[i]['track_index'])))))

    def evalloop(E, L):
        s = E.A.scenario
        q = s['tracks_to_predict']
        o = L.v('object_ids')
        m = lambda xx: z3.Select(o.mem, xx)
        return [('the car is in', m(tid(s, P.term(s['sdc_track_index'])))), ('the requested ones are in', forall([i], Implies(inr(i, L.k), m(tid(s, P.term(q[i]['track_index'])))), [P.term(q[i]['track_index'])])),
                ('no other is in', forall([x], Implies(m(x), asked(s, x, L.k)), [m(x)]))]

    def evalpost(E, A, r, _):
        s = A.scenario
        q = s['tracks_to_predict']
        sim = A.challenge_type.t == 0
        e = P.term(r[j])
        e2 = P.term(r[t])
        want = lambda xx: z3.Exists([j], And(inr(j, r.n), P.term(r[j]) == xx))
        return [('the car is evaluated', Implies(sim, want(tid(s, P.term(s['sdc_track_index']))))),
                ('the requested objects are evaluated', Implies(sim, forall([i], Implies(inr(i, q.n), want(tid(s, P.term(q[i]['track_index'])))), [P.term(q[i]['track_index'])]))),
                ('no other object is evaluated', Implies(sim, forall([j], Implies(inr(j, r.n), asked(s, e, q.n)), [e]))),
                ('no id is repeated', Implies(sim, forall([j, t], Implies(And(inr(j, t), t < r.n), e != e2), [z3.MultiPattern(e, e2)]))),
                ('scenario generation evaluates what it simulates', Implies(Not(sim), And(forall([j], Implies(inr(j, r.n), z3.Exists([i], And(inr(i, n(s)), valid(s, i), tid(s, i) == e))), [e]),
                                                                                         forall([i], Implies(And(inr(i, n(s)), valid(s, i)), want(tid(s, i))), [tid(s, i)]))))]
    S.pyfn(MOD, 'get_evaluation_sim_agent_ids', dict(scenario=SC, challenge_type=CT), requires=evalreq, loops={0: evalloop}, callees={'get_sim_agent_ids': SIM}, ensures=evalpost)

    # one scene
    def scenereq(E, A):
        return [kind(A), states_known(A.original_scenario)]

    def sceneloop(E, L):
        A = E.A
        sc, s, st = A.joint_scene, A.original_scenario, steps(A)
        o = L.v('simulated_ids')
        out = [('one id per trajectory', o.n == L.k), ('lengths', forall([t], Implies(inr(t, L.k), Not(bad_len(sc, t, st))), [oid(sc, t)])),
               ('known objects', forall([t], Implies(inr(t, L.k), z3.Exists([i], And(inr(i, n(s)), valid(s, i), tid(s, i) == oid(sc, t)))), [oid(sc, t)])),
               ('no repetition', forall([t, j], Implies(And(t >= 0, t < j, j < L.k), oid(sc, t) != oid(sc, j)), [z3.MultiPattern(oid(sc, t), oid(sc, j))]))]
        e = at(o, t)
        if e is not None:
            out.append(('their ids', forall([t], Implies(inr(t, L.k), e == oid(sc, t)), [e])))
            out.append(('their ids (by trajectory)', forall([t], Implies(inr(t, L.k), e == oid(sc, t)), [oid(sc, t)])))
        return out
    S.pyfn(MOD, 'validate_joint_scene', dict(joint_scene=SCENE, original_scenario=SC, challenge_type=CT), requires=scenereq, loops={0: sceneloop}, callees={'get_sim_agent_ids': SIM},
           raises=lambda E, A: {'ValueError': bad_scene(A.joint_scene, A.original_scenario, steps(A))})

    # a whole submission
    BAD = z3.Function('scene must be rejected', INT, BOOL)
    seen = P.PyContract(['joint_scene', 'original_scenario', 'challenge_type'], None, requires=lambda E, A: [('known challenge', kind(A)), ('states', states_known(A.original_scenario))],
                        raises=lambda E, A: bad_scene(A.joint_scene, A.original_scenario, steps(A)))

    def rollloop(E, L):
        A = E.A
        q = A.scenario_rollouts['joint_scenes']
        return [('accepted so far', forall([x], Implies(inr(x, L.k), Not(bad_scene(q[x], A.original_scenario, steps(A)))), [trajs(q[x]).n]))]

    def reject(E, A):
        r, s = A.scenario_rollouts, A.original_scenario
        q = r['joint_scenes']
        return {'ValueError': Or(Not(r['has_scenario_id']), P.term(r['scenario_id']) != P.term(s['scenario_id']), q.n != ROLLOUTS, z3.Exists([x], And(inr(x, q.n), bad_scene(q[x], s, steps(A)))))}
    S.pyfn(MOD, 'validate_scenario_rollouts', dict(scenario_rollouts=ROLL, original_scenario=SC, challenge_type=CT), requires=scenereq, loops={0: rollloop}, callees={'validate_joint_scene': seen}, raises=reject)


def lemmas(S):
    """what get_sim_agent_ids ensures implies what its callers use: each position of the result is that of a valid track"""
    c, w = z3.Function('c', INT, INT), z3.Function('w', INT, INT)
    v, idf, e = z3.Function('v', INT, BOOL), z3.Function('id', INT, INT), z3.Function('e', INT, INT)
    N, k = z3.Ints('N k')
    step = forall([i], Implies(inr(i, N), c(i + 1) == c(i) + If(v(i), z3.IntVal(1), I0)), [c(i + 1)])
    has = lambda m: forall([j], Implies(inr(j, c(m)), z3.Exists([i], And(inr(i, m), v(i), c(i) == j))))
    S.lemma('every position holds a valid object (base)', [c(0) == 0], has(I0))
    S.lemma('every position holds a valid object (step)', [step, inr(k, N), c(k + 1) == c(k) + If(v(k), z3.IntVal(1), I0), has(k)], has(k + 1))
    S.lemma('exactly the ids of the valid objects', [has(N), forall([i], Implies(And(inr(i, N), v(i)), And(inr(c(i), c(N)), e(c(i)) == idf(i))))],
            And(forall([j], Implies(inr(j, c(N)), z3.Exists([i], And(inr(i, N), v(i), e(j) == idf(i))))), forall([i], Implies(And(inr(i, N), v(i)), z3.Exists([j], And(inr(j, c(N)), e(j) == idf(i)))))))

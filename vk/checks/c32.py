"""C32 policy evaluation and evolved priority rules: exact and sampled expected costs, features, permutations, schedules and executions of priority functions."""
import copy
import itertools
import random

import numpy as np

from vk import dostubs, rcpspgen as G, hubsched as S
from vk.dostubs import quiet
from vk.checks.c31 import View, execute, snapshot

from skdecide import DiscreteDistribution, TransitionValue, ImplicitSpace, GoalMDPDomain, DeterministicPolicySolver
from skdecide.builders.domain import *      # noqa: F403
from skdecide.hub.space.gym import ListSpace
from vk.hubsched import H, B, akey        # noqa: E402
with dostubs.empty_data_dirs(), quiet():
    from skdecide.hub.solver.policy_evaluators import policy_evaluator as PE
    from skdecide.hub.solver.gphh import gphh as GP
    from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod as BM
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM
from skdecide.builders.solver import DeterministicPolicies

RULE = ('random goal decision processes with dead ends, loops and zero-probability outcomes under random policies; random projects executed by evolved, pooled and fixed priority rules with certain and uncertain durations; non-trivial = at least 4 states or 3 tasks')
REQUIRED = {'acyclic': 100, 'cyclic': 60, 'dead-end': 60, 'zero-probability': 60, 'start-is-goal': 10, 'rollouts': 60, 'fast-rollouts': 30, 'uncertain-rollouts': 30, 'features': 150, 'rule': 60, 'rule-uncertain': 20, 'pool': 60, 'pool-RANDOM': 8, 'extremes': 15,
            'fixed': 40, 'evolved': 4, 'evaluations': 40, 'distances': 20, 'references': 8, 'exact-schedules': 80}
ASSUMPTIONS = ['single-mode projects with constant capacities, numbered 1..n+2, and some duration', 'the horizon holds every serial schedule']


class Pol(DeterministicPolicies):
    def __init__(self, f):
        self.f = f

    def _get_next_action(self, observation):
        return self.f(observation)

    def _is_policy_defined_for(self, observation):
        return True


class MDP(GoalMDPDomain):
    T_state = T_observation = T_event = int
    T_value = float
    T_predicate = bool
    T_info = None

    def __init__(self, P, C, goals, dead, s0):
        self.P, self.C, self.goals, self.dead, self.s0 = P, C, goals, dead, s0

    def _get_action_space_(self): return ListSpace([0, 1, 2])
    def _get_applicable_actions_from(self, m): return ListSpace(sorted(a for s, a in self.P if s == m))
    def _get_next_state_distribution(self, m, a): return DiscreteDistribution(self.P[m, a])
    def _get_transition_value(self, m, a, t=None): return TransitionValue(cost=self.C[m, a, t])
    def _is_terminal(self, s): return s in self.goals or s in self.dead
    def _get_goals_(self): return ImplicitSpace(lambda s: s in self.goals)
    def _get_initial_state_(self): return self.s0
    def _get_observation_space_(self): return ImplicitSpace(lambda s: True)


def g_exact(run, rng):
    n = rng.randint(2, 9)
    goals = set(rng.sample(range(n), rng.randint(1, 2)))
    dead = {s for s in range(n) if s not in goals and rng.random() < .12}
    cyc = rng.random() < .35
    P, C, zero = {}, {}, False
    for s in range(n):
        if s in goals or s in dead:
            continue
        for a in range(rng.randint(1, 3)):
            cand = list(range(n)) if cyc else [x for x in range(s + 1, n)] or sorted(goals)
            outs = [rng.choice(cand) for _ in range(rng.randint(1, 3))] if rng.random() < .3 else rng.sample(cand, min(len(cand), rng.randint(1, 3)))
            w = [rng.randint(1, 4) for _ in outs]
            pr = [x / sum(w) for x in w]
            if rng.random() < .25:                       # an outcome that never happens
                outs.append(rng.choice(range(n)))
                pr.append(0.)
                zero = True
            k = list(range(len(outs)))
            rng.shuffle(k)
            P[s, a] = [(outs[i], pr[i]) for i in k]
            for o in outs:
                C[s, a, o] = rng.choice([0, 1, 2.5, 7])
    s0 = rng.choice([s for s in range(n)]) if rng.random() < .4 else 0
    act = {s: rng.choice([a for x, a in P if x == s]) for s in range(n) if (s, 0) in P}
    dom = MDP(P, C, goals, dead, s0)
    if zero:
        run.hit('zero-probability')
    if s0 in goals:
        run.hit('start-is-goal')
    D = lambda: f'P={P} C={C} goals={goals} dead={dead} s0={s0} policy={act}'
    values, pol, preds, succs = PE.compute_expected_cost_for_policy(dom, Pol(lambda s: act[s]))
    reach, stack = {s0}, [s0]
    while stack:
        s = stack.pop()
        if s in act:
            for t, pr in P[s, act[s]]:
                if pr > 0 and t not in reach:
                    reach.add(t)
                    stack.append(t)
    run.check(dict(pol) == {s: act[s] for s in reach if s in act}, 'exact:policy', lambda: f'{pol} {D()}')
    run.check({t: set(v) for t, v in preds.items() if v} == {t: {s for s in reach if s in act and any(x == t and pr > 0 for x, pr in P[s, act[s]])} for t in reach if any(x == t and pr > 0 for s in reach if s in act for x, pr in P[s, act[s]])}, 'exact:predecessors',
              lambda: f'{preds} {D()}')
    run.check({s: sorted((t, round(pr, 9)) for t, pr in v if pr) for s, v in succs.items()} == {s: sorted((t, round(pr, 9)) for t, pr in P[s, act[s]] if pr) for s in reach if s in act}, 'exact:successors', lambda: f'{succs} {D()}')
    # values: defined exactly for the states from which the policy surely reaches a goal without any loop
    want = {s: 0. for s in reach if s in goals}
    more = True
    while more:
        more = False
        for s in reach:
            if s in act and s not in want and all(t in want for t, pr in P[s, act[s]] if pr > 0):
                want[s] = sum(pr * (C[s, act[s], t] + want[t]) for t, pr in P[s, act[s]] if pr > 0)
                more = True
    lost = [s for s in reach if s not in want]
    if any(s in dead for s in lost):
        run.hit('dead-end')
    if any(s in act for s in lost) and not any(s in dead for s in lost):
        run.hit('cyclic')
    if not lost:
        run.hit('acyclic')
    got = {s: v for s, v in values.items()}
    if s0 in goals:
        got.setdefault(s0, 0)           # a start that is a goal costs nothing
    run.check(set(got) == set(want), 'exact:states-with-value', lambda: f'{got} {want} {D()}')
    run.check(all(abs(got[s] - want[s]) < 1e-6 for s in got if s in want), 'exact:value', lambda: f'{got} {want} {D()}')
    run.case(D(), len(reach) >= 4)


def g_rollout(run, rng):
    p = S.project(rng, nmax=5)
    d = S.domain(p, rng)
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    modes = G.rand_modes(rng, p)
    run.require(G.sgs(p, G.rand_perm(rng, p), modes)[0])
    noisy = not p.calendar and rng.random() < .4
    dom = H.build_stochastic_from_deterministic(d) if noisy else d
    mode = {j: G.mode_of(p, modes, j) for j in p.modes}
    policy = PolicyRCPSP(domain=dom, policy_method_params=PolicyMethodParams(BM.SGS_READY), permutation_task=rng.sample(sorted(p.modes), len(p.modes)), modes_dictionnary=mode)
    log = []

    def spy(s):
        a = policy.get_next_action(s)
        log.append((s.copy(), a))
        return a
    k = rng.randint(1, 3)
    fast = rng.random() < .4
    s0 = dom.get_initial_state()
    D = lambda: f'{policy.permutation_task} {mode} {p}'
    if fast:
        run.hit('fast-rollouts')
        f = rng.choice([PE.rollout_based_policy_estimation_fast_scheduling, PE.rollout_based_compute_expected_cost_for_policy_scheduling])
        val, pol, preds, succs = f(dom, Pol(spy), nb_rollout=k)
        a = [x for x in dom.get_applicable_actions(s0).get_elements()][0]
        before = snapshot(s0)
        dom.sample(s0, a)
        run.check(snapshot(s0) == before, 'fast:domain-left-in-place', D)
    else:
        f = rng.choice([PE.rollout_based_policy_estimation, PE.rollout_based_compute_expected_cost_for_policy])
        val, pol, preds, succs = f(dom, Pol(spy), nb_rollout=k)
    run.hit('uncertain-rollouts' if noisy else 'rollouts')
    # cut the log into episodes, each starts at date 0 with nothing done
    eps = []
    for s, a in log:
        if s.t == 0 and len(s.tasks_remaining) == len(p.modes):
            eps.append([])
        eps[-1].append((s, a))
    run.check(len(eps) == k, 'rollout:number', lambda: f'{len(eps)} {k} {D()}')
    # the last action completes the project
    ends = [(e[-1][0].t + (1 if akey(e[-1][1]) == 'TIME_PR' else 0)) for e in eps]
    mean = sum(ends) / len(ends)
    if fast:
        run.check(set(val) == {s0} and abs(val[s0] - mean) < 1e-9, 'fast:value', lambda: f'{list(val.values())} {ends} {D()}')
    else:
        seen = {}
        for e, end in zip(eps, ends):
            for i, (s, a) in enumerate(e):
                seen.setdefault(s, []).append((end - s.t, a, e[i - 1][0] if i else None, e[i + 1][0] if i + 1 < len(e) else None))
        run.check(set(val) == set(seen) == set(pol), 'rollout:states', lambda: f'{len(val)} {len(seen)} {D()}')
        for s, l in seen.items():
            run.check(abs(val.get(s, -1) - sum(x for x, *_ in l) / len(l)) < 1e-9, 'rollout:value', lambda: f'{val.get(s)} {l} {D()}')
            run.check(akey(pol[s]) in [akey(a) for _, a, *_ in l], 'rollout:action', lambda: f'{pol[s]} {l} {D()}')
            run.check(set(preds[s]) == {b for *_, b, n in l if b is not None}, 'rollout:predecessors', lambda: D())
            run.check({x for x in succs[s] if not dom.is_terminal(x)} == {n for *_, n in l if n is not None}, 'rollout:successors', lambda: f'{snapshot(s)} {[snapshot(x) for x in succs[s]]} {l} {D()}')
    run.case(repr(p), p.n >= 3)


# priority rules

def proj(rng, nmax=6, slack=0):
    while True:
        p = S.project(rng, 'single', nmax=nmax)
        if any(p.modes[j][1]['duration'] for j in p.modes):
            break
    tot = sum(p.modes[j][1]['duration'] for j in p.modes)
    p.horizon = tot + rng.randint(0, 3) + slack
    return p


def dates(p):
    """earliest and latest dates without resources"""
    order, preds = S.topological(p), p.preds()
    dur = {j: p.modes[j][1]['duration'] for j in p.modes}
    es = {}
    for j in order:
        es[j] = max([es[i] + dur[i] for i in preds[j]] + [0])
    end = es[p.sink]
    ls = {}
    for j in reversed(order):
        ls[j] = min([ls[i] for i in p.succ[j]] + [end]) - dur[j]
    return es, {j: es[j] + dur[j] for j in es}, ls, {j: ls[j] + dur[j] for j in ls}, end


def rand_features(rng):
    return rng.sample(list(GP.FeatureEnum), rng.randint(1, 4))


def g_features(run, rng):
    p = proj(rng)
    d = S.domain(p, rng)
    with quiet():
        cpm, esd = GP.compute_cpm(B.build_do_domain(d))
    es, ef, ls, lf, end = dates(p)
    n = len(p.modes)
    preds = p.preds()
    desc = {j: set() for j in p.modes}
    for j in reversed(S.topological(p)):
        for k in p.succ[j]:
            desc[j] |= {k} | desc[k]
    s = d.get_initial_state()
    for _ in range(rng.randint(0, 12)):
        if d.is_terminal(s):
            break
        s = d.get_next_state(s, rng.choice(list(d.get_applicable_actions(s).get_elements())))
    run.hit('features')
    run.check(esd == end, 'features:critical-length', lambda: f'{esd} {end} {p}')
    for j in p.modes:
        x = p.modes[j][1]
        rel = [x[r] / p.res[r] for r in p.res] if x['duration'] else [0.]
        want = {'task_duration': x['duration'], 'total_nres': sum(x[r] for r in p.res), 'n_successors': len(p.succ[j]) / n, 'n_predecessors': len(preds[j]) / n, 'res_requ': sum(1 for v in rel if v) / len(rel), 'avg_res_requ': sum(rel) / len(rel),
                'min_res_requ': min(rel), 'nz_min_res_requ': min([v for v in rel if v] or [0]), 'max_res_requ': max(rel), 'all_descendants': len(desc[j]) / n, 'precedence_done': j in s.tasks_remaining and preds[j] <= set(s.tasks_complete),
                'ESD': es[j] / end, 'LSD': ls[j] / end, 'EFD': ef[j] / end, 'LFD': lf[j] / end}
        for f in GP.FeatureEnum:
            got = GP.feature_function_map[f](domain=d, cpm=cpm, cpm_esd=esd, task_id=j, state=s)
            run.check(abs(float(got) - float(want[f.value])) < 1e-9, f'feature:{f.value}', lambda: f'{j} {got} {want[f.value]} {p}')
    ops = [rng.choice([-2.5, 0, 1, 3]) for _ in range(2)]
    a, b = ops
    run.check((GP.protected_div(a, b), GP.max_operator(a, b), GP.min_operator(a, b), GP.if_then_else(a > b, a, b)) == (a / b if b else 1., max(a, b), min(a, b), max(a, b)), 'features:operators', lambda: f'{a} {b}')
    run.case(repr(p), p.n >= 3)


def rule(rng, k):
    """a priority function of k features, with frequent ties"""
    w = [rng.choice([0, 1, 1, -1, 2]) for _ in range(k)]
    r = rng.choice([0, 1, 3])
    salt = rng.random() < .5
    return lambda *x: round(sum(a * float(v) for a, v in zip(w, x)), r) if salt else sum(a * float(v) for a, v in zip(w, x))


def priorities(d, do_model, fs, f, s):
    cpm, esd = GP.compute_cpm(do_model)
    return {j: f(*[GP.feature_function_map[x](domain=d, cpm=cpm, cpm_esd=esd, task_id=j, state=s) for x in fs]) for j in sorted(d.get_tasks_ids())}


def perm_of(val):
    return [j - 2 for j in sorted(val, key=lambda j: (val[j], j)) if j not in (1, max(val))]


STATIC = [f for f in GP.FeatureEnum if f != GP.FeatureEnum.PRECEDENCE_DONE]


def run_rule(run, rng, p, d, dom, policy, noisy, want, mech, D):
    """execute a priority policy: only startable tasks, valid schedules, and on certain projects exactly the serial schedule"""
    one = {j: 1 for j in p.modes}

    def judge(s, a):
        v = View(p, one, s)
        return akey(a) == 'TIME_PR' or run.check(a.task in v.ready and a.mode == 1 and v.can(a.task), mech + ':not-startable', lambda: f'{a} {snapshot(s)} {D()}')
    with quiet():
        s = execute(run, dom, policy, judge, 250, mech)
    if s is None:
        return None
    got = S.schedule_of(s)
    if run.check(dom.is_goal(s), mech + ':unfinished', lambda: f'{snapshot(s)} {D()}'):
        q = S.actual(p, got, [1] * p.n)
        q.horizon = 10 ** 6
        run.check(G.valid(q, got, [1] * p.n) is None, mech + ':invalid', lambda: f'{got} {D()}')
        if not noisy and want is not None:
            run.hit('exact-schedules')
            run.check(got == want, mech + ':schedule', lambda: f'{got} {want} {D()}')
    return got


def setting(rng):
    noisy = rng.random() < .3
    p = proj(rng, 4 if noisy else 5, slack=60 if noisy else 0)
    d = S.domain(p, rng)
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    dom = H.build_stochastic_from_deterministic(d) if noisy else d
    par = GP.ParametersGPHH.fast_test()
    par.base_policy_method = BM.FOLLOW_GANTT if rng.random() < .7 else rng.choice([BM.SGS_READY, BM.SGS_PRECEDENCE, BM.SGS_STRICT, BM.SGS_TIME_FREEDOM, BM.SGS_INDEX_FREEDOM])
    par.delta_time_freedom, par.delta_index_freedom = rng.randint(0, 3), rng.randint(0, 3)
    return noisy, p, d, dom, par


def g_rule(run, rng):
    noisy, p, d, dom, par = setting(rng)
    fs = rng.sample(STATIC, rng.randint(1, 4))
    f = rule(rng, len(fs))
    run.hit('rule-uncertain' if noisy else 'rule')
    with quiet():
        model = B.build_do_domain(d)
        val = priorities(d, model, fs, f, d.get_initial_state())
        keep = rng.random() < .4
        cpm, esd = GP.compute_cpm(model)
        policy = GP.GPHHPolicy(dom, d, f, features=fs, params_gphh=par, recompute_cpm=not keep, cpm_data={dom: {'cpm': cpm, 'cpm_esd': esd}} if keep else None)
    ok, want = G.sgs(p, perm_of(val), [1] * p.n)
    run_rule(run, rng, p, d, dom, policy, noisy, want if par.base_policy_method == BM.FOLLOW_GANTT and steady(p, perm_of(val)) else None, 'rule', lambda: f'{fs} {val} {par.base_policy_method} {p}')
    run.case((repr(p), tuple(val.values())), p.n >= 3)


def steady(p, perm):
    """a permutation in which no task precedes its predecessors: planning again later keeps the plan"""
    pos = {j + 2: i for i, j in enumerate(perm)}
    return all(pos[i] < pos[j] for i in pos for j in p.succ[i] if j in pos)


def pooled(vals, method, cut):
    """aggregate of one task, None if ties make the choice ambiguous"""
    vals = list(vals)
    if cut:
        med = float(np.median(vals))
        dist = sorted((abs(v - med) for v in vals), reverse=True)
        if cut < len(vals) and dist[cut - 1] == dist[cut]:
            return None
        vals = [v for v in vals if abs(v - med) < dist[cut - 1]]
    return float(np.mean(vals)) if method == GP.PoolAggregationMethod.MEAN else float(np.median(vals))


def g_pool(run, rng):
    noisy, p, d, dom, par = setting(rng)
    fs = rng.sample(STATIC, rng.randint(1, 3))
    k = rng.randint(1, 5)
    rules = [rule(rng, len(fs)) for _ in range(k)]
    method = rng.choice(list(GP.PoolAggregationMethod))
    cut = rng.randint(0, k - 1) if rng.random() < .4 else 0
    run.hit('pool')
    if method == GP.PoolAggregationMethod.RANDOM:
        run.hit('pool-RANDOM')
    if cut:
        run.hit('extremes')
    with quiet():
        model = B.build_do_domain(d)
        each = [priorities(d, model, fs, f, d.get_initial_state()) for f in rules]
        policy = GP.PooledGPHHPolicy(dom, d, rules, pool_aggregation_method=method, remove_extremes_values=cut, features=fs, params_gphh=par)
    want = None
    if method != GP.PoolAggregationMethod.RANDOM and par.base_policy_method == BM.FOLLOW_GANTT:
        val = {j: pooled([e[j] for e in each], method, cut) for j in p.modes}
        close = sorted(v for v in val.values() if v is not None)
        if None not in val.values() and all(b == a or b - a > 1e-9 for a, b in zip(close, close[1:])):
            want = G.sgs(p, perm_of(val), [1] * p.n)[1] if steady(p, perm_of(val)) else None
    run_rule(run, rng, p, d, dom, policy, noisy, want, 'pool', lambda: f'{fs} {each} {method} {cut} {par.base_policy_method} {p}')
    run.case((repr(p), method.name, k, cut), p.n >= 3)


def g_fixed(run, rng):
    noisy, p, d, dom, par = setting(rng)
    perm = rng.sample(sorted(p.modes), len(p.modes))
    if rng.random() < .6:
        perm = sorted(perm, key=lambda j: (dates(p)[0][j], S.topological(p).index(j)))
    inner = [j - 2 for j in perm if j not in (1, p.sink)]
    want = G.sgs(p, inner, [1] * p.n)[1] if steady(p, inner) else None
    policy = GP.FixedPermutationPolicy(dom, d, list(perm))
    run.hit('fixed')
    run_rule(run, rng, p, d, dom, policy, noisy, want, 'fixed', lambda: f'{perm} {p}')
    run.case((repr(p), tuple(perm)), p.n >= 3)


def g_evolve(run, rng):
    ps = [proj(rng, 4) for _ in range(rng.randint(1, 2))]
    ds = [S.domain(p, rng) for p in ps]
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    par = GP.ParametersGPHH.fast_test()
    if rng.random() < .5:
        par = GP.ParametersGPHH.default_for_set_features(set(rng.sample(list(GP.FeatureEnum), 3)))
        par.evaluation = GP.EvaluationGPHH.SGS
    par.pop_size, par.n_gen, par.tournament_ratio = 6, rng.randint(1, 2), .4
    dist = rng.random() < .4
    kw = {}
    if dist:
        par.evaluation = GP.EvaluationGPHH.PERMUTATION_DISTANCE
        par.permutation_distance = rng.choice(list(GP.PermutationDistance))
        names = ['a', 'b'][:len(ds)]
        kw = dict(training_domains_names=names, reference_permutations={n: rng.sample(sorted(p.modes), len(p.modes)) for n, p in zip(names, ps)})
    par.base_policy_method = BM.FOLLOW_GANTT
    with quiet():
        solver = GP.GPHH(ds, ds[0], weight=-1, params_gphh=par, **kw)
        solver.solve(lambda: ds[0])
    run.hit('evolved')
    fs = list(solver.list_feature)
    pol = []

    def vals(f, p, d):
        with quiet():
            return priorities(d, B.build_do_domain(d), fs, f, d.get_initial_state())
    for k in range(4):
        with quiet():
            tree = solver.hof[0] if k == 0 else solver.toolbox.individual()
            f = solver.toolbox.compile(expr=tree)
            mk = solver.evaluate_heuristic(tree, ds)
        run.hit('evaluations')
        want = np.mean([G.sgs(p, perm_of(vals(f, p, d)), [1] * p.n)[1][p.sink][1] for p, d in zip(ps, ds)])
        run.check(abs(mk[0] - want) < 1e-9, 'evolve:makespan', lambda: f'{mk} {want} {tree} {ps}')
        if k == 0 and not dist:
            run.check(abs(solver.hof[0].fitness.values[0] - want) < 1e-9, 'evolve:fitness', lambda: f'{solver.hof[0].fitness} {want} {ps}')
        if dist:
            run.hit('distances')
            own, ref = {}, solver.reference_permutations
            pen = []
            for p, d in zip(ps, ds):
                v = vals(f, p, d)
                own[d] = [1 + i for i in sorted(range(len(v)), key=lambda i: list(v.values())[i])]
                pen.append(max(list(v.values()).count(x) for x in v.values()) / len(v))
            with quiet():
                a = solver.evaluate_heuristic_permutation(tree, ds)[0]
                solver.reference_permutations = own
                b = solver.evaluate_heuristic_permutation(tree, ds)[0]
                solver.reference_permutations = ref
            low = {GP.PermutationDistance.KTD: -1, GP.PermutationDistance.HAMMING: 0, GP.PermutationDistance.KTD_HAMMING: -1}[par.permutation_distance]
            run.check(abs(b - low - np.mean(pen)) < 1e-9, 'evolve:distance-to-itself', lambda: f'{b} {low} {pen} {tree} {ps}')
            run.check(a >= b - 1e-9, 'evolve:distance-below-zero', lambda: f'{a} {b} {ref} {own}')
            if any(own[d] != ref[d] for d in ds):
                run.check(a > b, 'evolve:distance-not-positive', lambda: f'{a} {b} {ref} {own}')
    # the solver's own policy follows the best rule
    f = solver.func_heuristic
    if GP.FeatureEnum.PRECEDENCE_DONE not in fs:
        best = perm_of(vals(f, ps[0], ds[0]))
        want = G.sgs(ps[0], best, [1] * ps[0].n)[1] if steady(ps[0], best) else None
        run_rule(run, rng, ps[0], ds[0], ds[0], solver, False, want, 'evolve', lambda: f'{solver.best_heuristic} {ps}')
    if rng.random() < .5:
        with quiet():
            solver.test_features(ds[0], rng.choice(sorted(ps[0].modes)), ds[0].get_initial_state())
    run.case(repr(ps), ps[0].n >= 3)


def g_reference(run, rng):
    """the reference orders that the trainer computes itself: best orders of all the tasks"""
    ps = [proj(rng, 4) for _ in range(rng.randint(1, 2))]
    ds = [S.domain(p, rng) for p in ps]
    par = GP.ParametersGPHH.fast_test()
    par.evaluation = GP.EvaluationGPHH.PERMUTATION_DISTANCE
    names = ['a', 'b'][:len(ds)]
    given = {n: rng.sample(sorted(p.modes), len(p.modes)) for n, p in zip(names, ps) if rng.random() < .2}
    with quiet():
        solver = GP.GPHH(ds, ds[0], weight=-1, params_gphh=par, training_domains_names=names, reference_permutations=dict(given))
        solver.init_reference_permutations(dict(given), names)
    for n, p, d in zip(names, ps, ds):
        ref = [int(x) for x in solver.reference_permutations[d]]
        if n in given:
            run.eq(ref, given[n], 'reference:given')
            continue
        run.hit('references')
        if not run.check(sorted(ref) == sorted(p.modes) and ref[0] == 1 and ref[-1] == p.sink, 'reference:order', lambda: f'{ref} {p}'):
            continue
        mk = lambda order: G.sgs(p, [j - 2 for j in order], [1] * p.n)[1][p.sink][1]
        best = min(mk(o) for o in itertools.permutations(range(2, p.n + 2)))
        run.check(mk(ref[1:-1]) == best, 'reference:not-the-best-order', lambda: f'{ref} {mk(ref[1:-1])} {best} {p}')
    run.case((repr(ps), sorted(given)), any(p.n >= 3 for p in ps))


GROUPS = [('exact', g_exact, 3000, 60000), ('rollout', g_rollout, 500, 8000), ('features', g_features, 500, 8000), ('rule', g_rule, 300, 5000), ('pool', g_pool, 250, 4000), ('fixed', g_fixed, 200, 3000), ('evolve', g_evolve, 40, 500), ('reference', g_reference, 24, 240)]

"""C31 schedule-following and greedy policies on scheduling domains: which action is chosen in which state, how episodes end, what the DO solvers leave behind."""
import copy
import itertools
import random

import numpy as np

from vk import dostubs, mipsub, rcpspgen as G, hubsched as S, sched as SD
from vk.dostubs import quiet
from vk.checks import c29 as MS

dostubs.install()
mipsub.install(memory=True)
from vk.hubsched import H, B, start, wait, akey        # noqa: E402
with dostubs.empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.generic_tools import cp_tools
    from skdecide.builders.discrete_optimization.generic_tools.ea import ga_tools as GT
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill as MM
    from skdecide.hub.solver.do_solver import do_solver_scheduling as DS
    from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod as BM
    from skdecide.hub.solver.pile_policy.pile_policy import PilePolicy, GreedyChoice
    from skdecide.hub.solver.meta_policy.meta_policies import MetaPolicy
    from skdecide import rollout_episode
cp_tools.map_cp_solver_name[cp_tools.CPSolverName.CHUFFED] = 'gecode'

RULE = ('random projects (1-7 tasks, several modes, calendars, non-renewable resources, certain and uncertain durations, workers with skills, conditional tasks) executed to the end by every schedule-following and greedy policy, '
        'each decision compared with the set of decisions the policy stands for; non-trivial = at least 3 tasks')
METHODS = [BM.FOLLOW_GANTT, BM.SGS_PRECEDENCE, BM.SGS_READY, BM.SGS_STRICT, BM.SGS_TIME_FREEDOM, BM.SGS_INDEX_FREEDOM]
REQUIRED = {'FOLLOW_GANTT': 60, 'SGS_PRECEDENCE': 60, 'SGS_READY': 60, 'SGS_STRICT': 60, 'SGS_TIME_FREEDOM': 60, 'SGS_INDEX_FREEDOM': 60, 'pile-MOST_SUCCESSORS': 20, 'pile-SAMPLE_MOST_SUCCESSORS': 20, 'pile-FASTEST': 20, 'pile-TOTALLY_RANDOM': 20, 'finished': 300, 'uncertain': 100, 'no-schedule': 60, 'choices': 300, 'late': 20, 'conditional': 20, 'meta': 30, 'meta-disagree': 10, 'meta-uncertain': 60, 'meta-uncertain-spread': 10, 'ms': 30,
            'do-PILE': 10, 'do-GA': 2, 'do-LS': 2, 'do-CP': 2, 'do-ms': 1}
ASSUMPTIONS = ['instantaneous tasks need no renewable resource', 'mode 1 of every task exists', 'the horizon holds every list schedule']


class View:
    """what can be started in a state of a project, from the project data and the sets of tasks of the state"""

    def __init__(self, p, modes, s, cap=None):
        self.p, self.s = p, s
        preds = p.preds()
        self.ready = {j for j in s.tasks_remaining if preds[j] <= set(s.tasks_complete)}
        use = {r: 0 for r in p.res}
        for j in s.tasks_ongoing:
            for r in p.res:
                use[r] += p.modes[j][s.tasks_mode[j]][r]
        for j in s.tasks_complete:
            for r in p.nonren:
                use[r] += p.modes[j][s.tasks_mode[j]][r]
        self.free = {r: p.cap(r, s.t) - use[r] for r in p.res}
        self.mode = modes

    def can(self, j, m=None):
        x = self.p.modes[j][m if m is not None else self.mode[j]]
        return all(x[r] <= self.free[r] for r in self.p.res)


def allowed(method, v, order, plan, dt, di):
    """keys of the actions the method may choose (None = wait)"""
    W = 'TIME_PR'
    if method == BM.FOLLOW_GANTT:
        now = [j for j in v.ready if plan[j] == v.s.t]
        out = {(j, v.mode[j]) for j in now if v.can(j)}
        if len(out) < len(now) or not now:
            out.add(W)
        return out
    ready = [j for j in order if j in v.ready]
    if not ready:
        return {W}
    f = ready[0]
    if method == BM.SGS_READY:
        c = ready
    elif method in (BM.SGS_PRECEDENCE, BM.SGS_STRICT):
        c = ready if plan is None else [j for j in ready if plan[j] == plan[f]]
        c = c if plan is not None else [f]
    elif method == BM.SGS_TIME_FREEDOM:
        c = [f] if plan is None else [j for j in ready if plan[f] <= plan[j] <= plan[f] + dt]
    else:
        c = [j for j in ready if order.index(j) <= order.index(f) + di]
    for j in c:
        if v.can(j):
            return {(j, v.mode[j])}
    return {W}


def snapshot(s):
    return (s.t, sorted(s.tasks_remaining), sorted(s.tasks_ongoing), sorted(s.tasks_complete), sorted(s.tasks_paused), sorted(s.tasks_mode.items()), sorted(s.resource_used.items()), sorted(s.resource_availability.items()),
            sorted((j, d.start, d.end, d.sampled_duration) for j, d in s.tasks_details.items()))


def execute(run, d, policy, judge, limit, mech):
    """run the policy to the end, judging every decision; returns the last state"""
    s = d.get_initial_state()
    over = d._is_terminal(s)
    for k in range(limit):
        if over:
            break
        before = snapshot(s)
        a = policy.get_next_action(s)
        run.hit('choices')
        run.check(snapshot(s) == before, mech + ':observation-changed', lambda: f'{before} {snapshot(s)}')
        run.check(policy.is_policy_defined_for(s), mech + ':undefined')
        ok = judge(s, a)
        if not ok:
            return None
        run.check(bool(a.time_progress) == (akey(a) == 'TIME_PR'), mech + ':clock', lambda: f'{a} {before}')     # only waiting lets time pass
        out = d.sample(s, a)
        s, over = out.observation, out.termination
    return s


def uncertain(rng, d, p):
    st = H.build_stochastic_from_deterministic(d)
    return st


def g_sgs(run, rng):
    p = S.project(rng)
    d = S.domain(p, rng)
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    modes = G.rand_modes(rng, p)
    ok, sched = G.sgs(p, G.rand_perm(rng, p), modes)
    run.require(ok)
    mode = {j: G.mode_of(p, modes, j) for j in p.modes}
    method = rng.choice(METHODS)
    dt, di = rng.randint(0, 4), rng.randint(0, 3)
    params = PolicyMethodParams(base_policy_method=method, delta_time_freedom=dt, delta_index_freedom=di)
    noisy = not p.calendar and rng.random() < .35
    dom = uncertain(rng, d, p) if noisy else d
    how = rng.random()
    if how < .45:                     # from a solution of the optimisation model
        with quiet():
            model = B.build_do_domain(d)
            sol = RM.RCPSPSolution(problem=model, rcpsp_schedule={j: {'start_time': a, 'end_time': b} for j, (a, b) in sched.items()}, rcpsp_modes=list(modes), rcpsp_permutation=G.rand_perm(rng, p))
            policy = DS.from_solution_to_policy(sol, dom, params)
        order = sorted(sched, key=lambda j: (sched[j][0], j))
        plan = {j: a for j, (a, b) in sched.items()}
    elif how < .75 or method == BM.FOLLOW_GANTT:
        order = rng.sample(sorted(p.modes), len(p.modes)) if rng.random() < .5 else sorted(sched, key=lambda j: (sched[j][0], j))
        plan = {j: a for j, (a, b) in sched.items()}
        policy = PolicyRCPSP(domain=dom, policy_method_params=params, permutation_task=list(order), modes_dictionnary=dict(mode), schedule={j: {'start_time': a, 'end_time': b} for j, (a, b) in sched.items()})
    else:
        order, plan = rng.sample(sorted(p.modes), len(p.modes)), None
        run.hit('no-schedule')
        policy = PolicyRCPSP(domain=dom, policy_method_params=params, permutation_task=list(order), modes_dictionnary=dict(mode))
    run.hit(method.name)
    if noisy:
        run.hit('uncertain')
    D = lambda: f'{method} dt={dt} di={di} order={order} plan={plan} modes={mode} {p}'

    def judge(s, a):
        v = View(p, mode, s)
        want = allowed(method, v, order, plan, dt, di)
        if plan is not None and any(plan[j] < s.t for j in v.ready):
            run.hit('late')
        return run.check(akey(a) in want, f'sgs:{method.name}', lambda: f'{a} allowed {want} in {snapshot(s)} {D()}')
    s = execute(run, dom, policy, judge, 400, 'sgs')
    if s is not None:
        if method == BM.FOLLOW_GANTT and not noisy:
            run.check(dom.is_goal(s) and S.schedule_of(s) == sched, 'sgs:plan-not-followed', lambda: f'{S.schedule_of(s)} {sched} {D()}')
        if method != BM.FOLLOW_GANTT and not noisy:
            run.check(dom.is_goal(s), 'sgs:unfinished', lambda: f'{snapshot(s)} {D()}')
        if dom.is_goal(s):
            run.hit('finished')
            got = S.schedule_of(s)
            q = S.actual(p, got, modes)
            q.horizon = 10 ** 6
            why = G.valid(q, got, modes) if not p.calendar else None
            run.check(why is None, 'sgs:invalid-schedule', lambda: f'{why} {got} {D()}')
            run.check({j: s.tasks_mode[j] for j in p.modes} == mode, 'sgs:modes', lambda: f'{s.tasks_mode} {D()}')
            # rollout_episode tells the same story (certain durations)
            if not noisy and rng.random() < .3:
                obs, acts, vals = rollout_episode(domain=dom, solver=policy, from_memory=dom.get_initial_state(), max_steps=500, outcome_formatter=None, action_formatter=None, verbose=False)
                if method != BM.FOLLOW_GANTT or True:
                    run.check(S.schedule_of(obs[-1]) == got, 'sgs:rollout', lambda: f'{S.schedule_of(obs[-1])} {got} {D()}')
                    run.check(sum(v.cost for v in vals) == obs[-1].t, 'sgs:rollout-cost', lambda: f'{vals} {D()}')
    run.case((repr(p), method.name), p.n >= 3)


def g_pile(run, rng):
    p = S.project(rng)
    d = S.domain(p, rng)
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    noisy = not p.calendar and rng.random() < .3
    dom = uncertain(rng, d, p) if noisy else d
    g = rng.choice(list(GreedyChoice))
    policy = PilePolicy(greedy_method=g)
    policy.solve(lambda: dom)
    run.hit('pile-' + g.name)
    desc = {j: set() for j in p.modes}
    for j in reversed(S.topological(p)):
        for k in p.succ[j]:
            desc[j] |= {k} | desc[k]
    D = lambda: f'{g} {p}'
    one = {j: 1 for j in p.modes}

    def judge(s, a):
        v = View(p, one, s)
        c = [j for j in v.ready if v.can(j)]
        if not c:
            return run.check(akey(a) == 'TIME_PR', 'pile:not-startable', lambda: f'{a} {snapshot(s)} {D()}')
        if g == GreedyChoice.MOST_SUCCESSORS:
            c = [j for j in c if len(desc[j]) == max(len(desc[i]) for i in c)]
        elif g == GreedyChoice.SAMPLE_MOST_SUCCESSORS:
            c = [j for j in c if desc[j]] or c
        elif g == GreedyChoice.FASTEST and not noisy:
            c = [j for j in c if p.modes[j][1]['duration'] == min(p.modes[i][1]['duration'] for i in c)]
        return run.check(akey(a) in {(j, 1) for j in c}, f'pile:{g.name}', lambda: f'{a} allowed {c} in {snapshot(s)} {D()}')
    s = execute(run, dom, policy, judge, 400, 'pile')
    if s is not None:
        fits = all(sum(p.modes[j][1][r] for j in p.modes) <= p.cap(r, 0) for r in p.nonren)
        if fits and not noisy:
            run.check(dom.is_goal(s), 'pile:unfinished', lambda: f'{snapshot(s)} {D()}')
        if dom.is_goal(s):
            run.hit('finished')
            got = S.schedule_of(s)
            q = S.actual(p, got, [1] * p.n)
            q.horizon = 10 ** 6
            run.check(p.calendar or G.valid(q, got, [1] * p.n) is None, 'pile:invalid-schedule', lambda: f'{got} {D()}')
    run.case((repr(p), g.name), p.n >= 3)


def g_cond(run, rng):
    """tasks that may not exist: nobody waits for them and nobody starts them"""
    s = SD.gen(rng, kind=rng.choice(['unc', 'sim']), skills=False, preempt=False, varying=False, single=True, cond=True)
    d = SD.build(s)
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    ref = SD.Ref(s)
    if rng.random() < .5:
        g = rng.choice(list(GreedyChoice))
        policy = PilePolicy(greedy_method=g)
        policy.solve(lambda: d)
        pick = None
    else:
        pick = rng.sample(s.ids, len(s.ids))
        policy = PolicyRCPSP(domain=d, policy_method_params=PolicyMethodParams(BM.SGS_READY), permutation_task=list(pick), modes_dictionnary={j: 1 for j in s.ids})
    D = lambda: f'{pick} {s}'
    skipped = [False]

    def judge(st, a):
        av = {j for j in s.ids if all(c in st._current_conditions for c in s.exist.get(j, []))}
        fits = lambda j: all((s.modes[j][1].get(r) or [0])[0] <= st.resource_availability[r] - st.resource_used[r] for r in s.types)
        c = [j for j in st.tasks_remaining if (ref.pred[j] & av) <= set(st.tasks_complete) and fits(j)]
        if any(ref.pred[j] - av for j in c):
            skipped[0] = True
        if not c:
            return run.check(akey(a) == 'TIME_PR', 'conditional:not-startable', lambda: f'{a} {snapshot(st)} {D()}')
        if pick is not None:
            c = [min(c, key=pick.index)]
        return run.check(akey(a) in {(j, 1) for j in c}, 'conditional:waits-for-absent-task' if akey(a) == 'TIME_PR' else 'conditional:wrong-task', lambda: f'{a} allowed {c} in {snapshot(st)} {sorted(map(str, st._current_conditions))} {D()}')
    execute(run, d, policy, judge, 150, 'conditional')
    if skipped[0]:
        run.hit('conditional')
    run.case(str(s), len(s.ids) >= 3)


def makespan(p, d, policy, s0):
    """remaining time of the policy from a state of a deterministic domain, and its first action"""
    s, first = s0.copy(), None
    for _ in range(500):
        if d.is_terminal(s):
            break
        a = policy.get_next_action(s)
        first = first or a
        s = d.get_next_state(s, a)
    return s.t - s0.t, first


def g_meta(run, rng):
    p = S.project(rng, nmax=6)
    mk = lambda: S.domain(p, random.Random(seed))
    seed = rng.random()
    d, known, other = mk(), mk(), mk()
    same = rng.random() < .3           # one domain object for both roles
    if same:
        known = d
    modes = G.rand_modes(rng, p)
    run.require(G.sgs(p, G.rand_perm(rng, p), modes)[0])
    mode = {j: G.mode_of(p, modes, j) for j in p.modes}
    pol, twin = {}, {}
    for i in range(rng.randint(1, 4)):
        order = rng.sample(sorted(p.modes), len(p.modes))
        method = rng.choice([BM.SGS_READY, BM.SGS_PRECEDENCE, BM.SGS_INDEX_FREEDOM])
        params = PolicyMethodParams(method, delta_index_freedom=rng.randint(0, 2))
        a = PolicyRCPSP(domain=d, policy_method_params=params, permutation_task=list(order), modes_dictionnary=dict(mode))
        pol[i] = a
        twin[i] = PolicyRCPSP(domain=other, policy_method_params=params, permutation_task=list(order), modes_dictionnary=dict(mode))
    meta = MetaPolicy(policies=pol, execution_domain=d, known_domain=known, nb_rollout_estimation=rng.randint(1, 2), verbose=False)
    run.hit('meta')
    D = lambda: f'{[(q.permutation_task, q.policy_method_params.base_policy_method) for q in pol.values()]} {modes} {p}'

    def judge(s, a):
        est = {i: makespan(p, other, q, s) for i, q in twin.items()}
        best = min(m for m, _ in est.values())
        want = {akey(f) for m, f in est.values() if m == best}
        if len({akey(f) for m, f in est.values()}) > 1 and len({m for m, f in est.values()}) > 1:
            run.hit('meta-disagree')
        return run.check(akey(a) in want, 'meta:not-the-best-policy', lambda: f'{a} {est} {snapshot(s)} {D()}')
    s = execute(run, d, meta, judge, 300, 'meta')
    if s is not None:
        best = min(makespan(p, other, q, other.get_initial_state())[0] for q in twin.values())
        run.check(d.is_goal(s) and s.t <= best, 'meta:worse-than-its-policies', lambda: f'{s.t} {best} {D()}')
        # the domains still behave as before
        s0 = d.get_initial_state()
        before = snapshot(s0)
        acts = [a for a in d.get_applicable_actions(s0).get_elements()]
        d.get_next_state(s0, acts[0])
        run.check(snapshot(s0) == before, 'meta:domain-left-in-place', lambda: f'{same} {D()}')
    run.case(repr(p), p.n >= 3)


class Endless(Exception):
    pass


def g_meta_unc(run, rng):
    """an uncertain known domain: the episodes simulated for each policy are watched, the choice must be the best of them on the whole"""
    s = SD.gen(rng, kind=rng.choice(['unc', 'sim']), skills=False, preempt=False, calendar=False, varying=False, single=True, cond=False)
    run.require(len(s.ids) >= 2)
    d, known = SD.build(s), SD.build(s)
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    log, cur = [], [None, 0]
    pol = {}
    for i in range(rng.randint(2, 4)):
        a = pol[i] = PolicyRCPSP(domain=d, policy_method_params=PolicyMethodParams(BM.SGS_READY), permutation_task=rng.sample(s.ids, len(s.ids)), modes_dictionnary={j: 1 for j in s.ids})
        old = a.reset

        def reset(i=i, old=old):
            cur[:] = [[i, None, None], 0]
            log.append(cur[0])
            return old()
        a.reset = reset
    step = known.step

    def watched(a):
        cur[1] += 1
        if cur[1] > 120:
            raise Endless()
        out = step(a)
        if cur[0] is not None:
            cur[0][1] = cur[0][1] or akey(a)
            cur[0][2] = out.observation.t
        return out
    known.step = watched
    n = rng.randint(2, 4)
    meta = MetaPolicy(policies=pol, execution_domain=d, known_domain=known, nb_rollout_estimation=n, verbose=False)

    def judge(st, a):
        eps = [e for e in log if e[1] is not None]
        del log[:]
        cur[0], cur[1] = None, 0
        if not eps:
            return True
        tot = {i: [e[2] - st.t for e in eps if e[0] == i] for i in pol}
        if not run.check(all(len(l) == n for l in tot.values()), 'meta-uncertain:rollouts', lambda: f'{tot} {n} {s}'):
            return False
        run.hit('meta-uncertain')
        best = min(sum(l) for l in tot.values())
        want = {e[1] for e in eps if sum(tot[e[0]]) == best}
        lasts = {i: l[-1] for i, l in tot.items()}
        if min(lasts, key=lasts.get) not in {i for i in tot if sum(tot[i]) == best}:
            run.hit('meta-uncertain-spread')
        return run.check(akey(a) in want, 'meta-uncertain:not-the-best-policy', lambda: f'{a} {tot} {eps} {snapshot(st)} {s}')
    try:
        execute(run, d, meta, judge, 60, 'meta-uncertain')
    except Endless:
        run.hit('meta-endless')
    run.case(str(s), len(s.ids) >= 3)


# multi-skill: the planned workers do the planned tasks

def g_ms(run, rng):
    p = MS.gen(rng, n=rng.randint(1, 5), single=False, ids=None)
    with quiet():
        m = MS.build(p, rng.choice([MM.MS_RCPSPModel, MM.MS_RCPSPModel_Variant]))
        d = B.build_sk_domain(m, varying_ressource=True)
        back = B.build_do_domain(d)
    names = sorted(str(e) for e in p.ids)
    num = {int(n): i for i, n in enumerate(names)} if all(isinstance(e, int) for e in p.ids) else {e: names.index(str(e)) for e in p.ids}
    modes, prio = MS.rand_modes(rng, p), MS.rand_prio(rng, p)
    workers = [rng.sample(p.ids, len(p.ids)) for _ in range(p.n)]
    want = MS.ref(p, prio, modes, workers)
    run.require(want is not None and p.horizon > want[0][p.sink][1])
    sched, usage = want
    mode = {1: 1, p.sink: 1, **{j: modes[j - 2] for j in range(2, p.n + 2)}}
    if any(p.modes[j][mode[j]]['duration'] == 0 and any(v for x, v in p.modes[j][mode[j]].items() if x not in p.N) for j in p.modes):
        run.require(False)
    with quiet():
        sol = MM.MS_RCPSPSolution_Variant(problem=back, priority_list_task=list(prio), modes_vector=list(modes), priority_worker_per_task=[[num[e] for e in w] for w in workers])
        if rng.random() < .5:
            sol = MM.MS_RCPSPSolution(problem=back, modes=dict(mode), schedule=copy.deepcopy(sol.schedule), employee_usage=copy.deepcopy(sol.employee_usage))
    method = rng.choice(METHODS)
    params = PolicyMethodParams(base_policy_method=method, delta_time_freedom=rng.randint(0, 3), delta_index_freedom=rng.randint(0, 3))
    with quiet():
        policy = DS.from_solution_to_policy(sol, d, params)
    run.hit('ms')
    D = lambda: f'{method} {sched} {usage} {modes} {p}'

    def judge(s, a):
        if akey(a) == 'TIME_PR':
            return True
        j = a.task
        got = sorted(a.resource_unit_names or [])
        return run.check(a.mode == mode[j] and got == sorted(str(e) for e in usage.get(j, {})), 'ms:workers', lambda: f'{a} {D()}') and \
            run.check(d.check_if_action_can_be_started(s, a)[0] and j in d.task_possible_to_launch_precedence(s), 'ms:not-startable', lambda: f'{a} {snapshot(s)} {D()}')
    s = execute(run, d, policy, judge, 300, 'ms')
    if s is not None and method == BM.FOLLOW_GANTT:
        run.check(d.is_goal(s) and S.schedule_of(s) == sched, 'ms:plan-not-followed', lambda: f'{S.schedule_of(s)} {D()}')
    run.case(repr(p), p.n >= 3)


def feasible(p):
    """some choice of modes respects the non-renewable resources"""
    return any(all(sum(m[r] for m in ms) <= p.cap(r, 0) for r in p.nonren) for ms in itertools.product(*[p.modes[j].values() for j in p.modes]))


def g_do(run, rng):
    method = rng.choice([DS.SolvingMethod.PILE] * 4 + [DS.SolvingMethod.GA, DS.SolvingMethod.LS, DS.SolvingMethod.CP, DS.SolvingMethod.LP])
    kind = rng.choice(['single', 'multi', 'calendar', 'mcalendar'] if method in (DS.SolvingMethod.PILE, DS.SolvingMethod.LS, DS.SolvingMethod.CP) else ['single', 'multi'])
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    pm = PolicyMethodParams(BM.FOLLOW_GANTT)
    extra = {DS.SolvingMethod.LS: {'nb_iteration_max': 20}, DS.SolvingMethod.GA: {}, DS.SolvingMethod.CP: {}, DS.SolvingMethod.LP: {}, DS.SolvingMethod.PILE: {}}[method]
    p = S.project(rng, kind, nmax=4)
    run.require(method != DS.SolvingMethod.GA or p.n > 1)
    run.require(feasible(p))
    d = S.domain(p, rng)
    if method == DS.SolvingMethod.GA:
        with quiet():
            flat = isinstance(B.build_do_domain(d), RM.SingleModeRCPSPModel)
        ga = copy.copy(GT.ParametersGa.default_rcpsp() if flat else GT.ParametersAltGa.default_mrcpsp())
        ga.pop_size, ga.max_evals = 10, 60
        if not flat:
            ga.sub_evals = [30] * len(ga.sub_evals)
        extra = {'parameters_ga': ga}
    solver = DS.DOSolver(policy_method_params=pm, method=method, dict_params=extra or None)
    with quiet():
        solver.solve(lambda: d)
    run.hit('do-' + method.name)
    sol = solver.best_solution
    sched, modes = G.sched_of(sol), list(sol.rcpsp_modes)
    why = G.valid(p, sched, modes)
    if method in (DS.SolvingMethod.GA, DS.SolvingMethod.LS):            # random search need not find modes that respect the non-renewable resources
        run.require(all(sum(p.modes[j][G.mode_of(p, modes, j)][r] for j in p.modes) <= p.cap(r, 0) for r in p.nonren))
    run.check(why is None, f'do:{method.name}:invalid', lambda: f'{why} {sched} {modes} {p}')
    s = execute(run, d, solver, lambda s, a: True, 300, 'do')
    run.check(d.is_goal(s) and S.schedule_of(s) == sched, f'do:{method.name}:plan-not-followed', lambda: f'{S.schedule_of(s)} {sched} {modes} {p}')
    run.case((repr(p), method.name), p.n >= 2)


def g_do_ms(run, rng):
    method = rng.choice([DS.SolvingMethod.LS, DS.SolvingMethod.GA, DS.SolvingMethod.CP])
    p = MS.gen(rng, n=rng.randint(2, 4), single=False, ids=None, zero=False, slack=True, calendars=None if method == DS.SolvingMethod.GA else False)
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    with quiet():
        d = B.build_sk_domain(MS.build(p, MM.MS_RCPSPModel_Variant), varying_ressource=True)
    extra = {}
    if method == DS.SolvingMethod.GA:
        ga = copy.copy(GT.ParametersAltGa.default_msrcpsp())
        ga.max_evals, ga.sub_evals = 100, [40, 40, 40]
        extra = {'parameters_ga': ga}
    elif method == DS.SolvingMethod.CP:
        extra = {'add_calendar_constraint_unit': False, 'exact_skills_need': False}
    solver = DS.DOSolver(policy_method_params=PolicyMethodParams(BM.FOLLOW_GANTT), method=method, dict_params=extra)
    with quiet():
        solver.solve(lambda: d)
    run.hit('do-ms')
    sol = solver.best_solution
    with quiet():
        ok = bool(solver.do_domain.satisfy(sol))
    run.require(ok or method == DS.SolvingMethod.CP)
    names = sorted(str(e) for e in p.ids)
    sched = MS.sched_of(sol)
    modes = dict(sol.modes) if not isinstance(sol, MM.MS_RCPSPSolution_Variant) else {1: 1, p.sink: 1, **{j + 2: m for j, m in enumerate(sol.modes_vector)}}
    usage = {j: {next(x for x in p.ids if str(x) == names[e]): k for e, k in u.items()} for j, u in MS.usage_of(sol).items()}
    why = MS.violated(p, sched, modes, usage)
    run.check(why is None, f'do-ms:{method.name}:invalid', lambda: f'{why} {sched} {modes} {usage} {p}')
    s = execute(run, d, solver, lambda s, a: True, 300, 'do-ms')
    run.check(d.is_goal(s) and S.schedule_of(s) == sched, f'do-ms:{method.name}:plan-not-followed', lambda: f'{S.schedule_of(s)} {sched} {modes} {usage} {p}')
    run.case((repr(p), method.name), p.n >= 2)


GROUPS = [('sgs', g_sgs, 900, 15000), ('pile', g_pile, 300, 5000), ('cond', g_cond, 200, 4000), ('meta', g_meta, 120, 2000), ('meta_unc', g_meta_unc, 150, 3000), ('ms', g_ms, 150, 3000), ('do', g_do, 80, 800), ('do_ms', g_do_ms, 20, 240)]

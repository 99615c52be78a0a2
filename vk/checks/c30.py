"""C30 hub scheduling domains and optimisation models: the same project on both sides, replayed schedules and converted problems."""
import copy
import os
import shutil
import tempfile

from vk import dostubs, rcpspgen as G, hubsched as S
from vk.dostubs import quiet
from vk.checks import c29 as MS

dostubs.install()
from vk.hubsched import H, B, start, wait, akey        # noqa: E402
with dostubs.empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM, rcpsp_parser
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill as MM
    from skdecide.hub.domain.rcpsp import rcpsp_sk_parser as SP
    from skdecide.builders.scheduling import scheduling_domains as SD, modes as SD_modes
from skdecide import DiscreteDistribution

RULE = ('random projects (1-7 tasks, 1-3 modes, renewable and non-renewable resources, calendars, zero durations) and multi-skill projects built as hub domains and as optimisation models, random feasible and broken schedules replayed as actions, '
        'random walks, chains of conversions, uncertain variants; non-trivial = at least 3 tasks')
REQUIRED = {'replayed': 300, 'broken': 150, 'walks': 100, 'converted': 300, 'calendar': 100, 'nonrenewable': 60, 'ms-converted': 100, 'ms-replayed': 60, 'ms-calendar': 40, 'ten-workers': 10, 'noise': 100, 'sampled': 100, 'loaded': 3, 'smcal': 40, 'user': 40, 'ms-loaded': 40, 'ms-loaded-run': 10,
            'binding': 150}
ASSUMPTIONS = ['instantaneous tasks need no renewable resource', 'task 1 is the source, the task of highest number the sink, both without duration or need', 'the horizon multiplier is 1 and calendars reach at least to the horizon']


def same_project(run, p, m, mech):
    """the optimisation model m describes the project p"""
    need = lambda ms: {j: {k: {x: v for x, v in d.items() if v or x == 'duration'} for k, d in mm.items()} for j, mm in ms.items()}
    run.check(need(m.mode_details) == need(p.modes), mech + ':modes', lambda: f'{m.mode_details} {p}')
    run.check({j: sorted(v) for j, v in m.successors.items()} == {j: sorted(v) for j, v in p.succ.items()}, mech + ':successors', lambda: f'{m.successors} {p}')
    run.check(m.horizon == p.horizon and m.horizon_multiplier == 1, mech + ':horizon', lambda: f'{m.horizon} {p}')
    run.check(set(m.non_renewable_resources) == set(p.nonren), mech + ':renewability', lambda: f'{m.non_renewable_resources} {p}')
    if p.calendar:
        run.check(set(m.resources) == set(p.res) and all([int(v) for v in m.resources[r][:p.horizon]] == p.res[r][:p.horizon] for r in p.res), mech + ':calendar', lambda: f'{m.resources} {p}')
    else:
        run.check({r: int(v) for r, v in m.resources.items()} == p.res, mech + ':resources', lambda: f'{m.resources} {p}')


def same_domain(run, p, d, mech):
    run.check(sorted(d.get_tasks_ids()) == sorted(p.modes), mech + ':tasks')
    run.check({j: sorted(v) for j, v in d.get_successors().items()} == {j: sorted(v) for j, v in p.succ.items()}, mech + ':successors', lambda: f'{d.get_successors()} {p}')
    run.check(d.get_max_horizon() == p.horizon, mech + ':horizon', lambda: f'{d.get_max_horizon()} {p}')
    ren = d.get_resource_renewability()
    run.check({r: bool(ren[r]) for r in p.res} == {r: r not in p.nonren for r in p.res}, mech + ':renewability', lambda: f'{ren} {p}')
    run.check(set(d.get_resource_types_names()) == set(p.res), mech + ':resources')
    for r in p.res:
        run.check([d.get_quantity_resource(r, time=t) for t in range(p.horizon)] == [p.cap(r, t) for t in range(p.horizon)], mech + ':quantities', lambda: f'{r} {p}')
        run.check(p.calendar or d.get_original_quantity_resource(r) == p.res[r], mech + ':original-quantity', lambda: f'{r} {p}')
    for j in p.modes:
        run.check(set(d.get_task_modes(j)) == set(p.modes[j]), mech + ':modes', lambda: f'{j} {p}')
        for k, m in p.modes[j].items():
            run.check(all(d.get_task_modes(j)[k].get_resource_need_at_time(r, time=t) == m[r] for r in p.res for t in range(m['duration'])), mech + ':needs', lambda: f'{j} {k} {p}')


def replay(run, p, d, sched, modes):
    """start every task at its date; returns the final state or the refused action"""
    order = S.topological(p)
    s = d.get_initial_state()
    last = max(e for _, e in sched.values())
    for t in range(last + 1):
        run.eq(s.t, t, 'replay:clock')
        todo = sorted([j for j in order if sched[j][0] == t], key=lambda j: (p.modes[j][G.mode_of(p, modes, j)]['duration'] > 0))
        # instantaneous tasks may have to wait for other tasks of the same date and conversely: predecessors first
        todo = [j for j in order if j in todo]
        for j in todo:
            a = start(j, G.mode_of(p, modes, j))
            ok = any(akey(x) == akey(a) for x in d.get_applicable_actions(s).get_elements())
            run.hit('events')
            if not ok:
                return s, (t, j)
            s = d.get_next_state(s, a)
        if t < last:
            s = d.get_next_state(s, wait())
    return s, None


def g_replay(run, rng):
    p = S.project(rng)
    modes = G.rand_modes(rng, p)
    d = S.domain(p, rng)
    same_domain(run, p, d, 'domain')
    for j in p.modes:
        for k, m in p.modes[j].items():
            run.eq(d.get_task_duration(task=j, mode=k), m['duration'], 'domain:duration')
    ok, sched = G.sgs(p, G.rand_perm(rng, p), modes)
    if p.calendar:
        run.hit('calendar')
    if p.nonren:
        run.hit('nonrenewable')
    if ok:
        if rng.random() < 0.4:             # any other feasible schedule
            q = dict(sched)
            for _ in range(3):
                j = rng.choice(sorted(q))
                k = rng.randint(0, 2)
                trial = {i: ((s + k, e + k) if s >= q[j][0] and (i == j or s > q[j][0]) else (s, e)) for i, (s, e) in q.items()}
                if G.valid(p, trial, modes) is None and max(e for _, e in trial.values()) <= p.horizon:
                    q = trial
            sched = q
        s, bad = replay(run, p, d, sched, modes)
        run.hit('replayed')
        if run.check(bad is None, 'replay:feasible-schedule-refused', lambda: f'{bad} {type(d).__name__} {sched} {modes} {p}'):
            run.check(S.schedule_of(s) == sched, 'replay:dates', lambda: f'{S.schedule_of(s)} {sched} {p}')
            run.check(d.is_goal(s) and d.is_terminal(s), 'replay:not-finished', lambda: f'{s} {p}')
            with quiet():
                sol = B.from_last_state_to_solution(s, d)
                run.check(G.sched_of(sol) == sched and list(sol.rcpsp_modes) == modes, 'last-state:solution', lambda: f'{sol.rcpsp_schedule} {sol.rcpsp_modes} {sched} {modes} {p}')
                run.check(bool(sol.problem.satisfy(sol)), 'last-state:satisfied', lambda: f'{sched} {modes} {p}')
                run.eq(sol.problem.evaluate(sol)['makespan'], sched[p.sink][1], 'last-state:makespan')
            run.hit('binding')
            same_project(run, p, sol.problem, 'last-state')
        # and a broken one
        j = rng.choice(sorted(p.modes))
        k = rng.choice([-3, -2, -1, -1, 1, 2])
        x = {i: ((a + k, b + k) if i == j else (a, b)) for i, (a, b) in sched.items()}
        why = G.valid(p, x, modes)
        if why in ('precedence', 'renewable') and min(a for a, _ in x.values()) >= 0 and not (p.calendar and why == 'renewable'):
            s, bad = replay(run, p, d, x, modes)
            run.hit('broken')
            run.check(bad is not None, 'replay:infeasible-schedule-accepted', lambda: f'{why} {x} {modes} {p}')
    # random walks: whatever the domain accepts is feasible
    s = d.get_initial_state()
    eager = rng.random()
    while not d.is_terminal(s):
        acts = list(d.get_applicable_actions(s).get_elements())
        st = [a for a in acts if a.action == S.A.START]
        a = rng.choice(st) if st and rng.random() < eager + .2 else rng.choice(acts)
        s = d.get_next_state(s, a)
        run.hit('events')
    if d.is_goal(s):
        run.hit('walks')
        got = S.schedule_of(s)
        ms = [s.tasks_mode[j] for j in range(2, p.n + 2)]
        why = G.valid(p, got, ms)
        run.check(why is None or (p.calendar and why == 'renewable'), 'walk:infeasible', lambda: f'{why} {got} {ms} {p}')
        with quiet():
            sol = B.from_last_state_to_solution(s, d)
            run.check(list(sol.rcpsp_modes) == ms and G.sched_of(sol) == got, 'last-state:walk', lambda: f'{sol.rcpsp_modes} {ms} {p}')
    run.case(repr(p) + repr(sched), p.n >= 3)


def user_domain(p, dist=None):
    """a project with one mode per task written against the scheduling classes themselves"""
    base = SD.SingleModeRCPSP if dist is None else SD.SingleModeRCPSP_Stochastic_Durations

    class Mine(base):
        def __init__(self):
            self.initialize_domain()

        def _get_max_horizon(self):
            return p.horizon

        def _get_objectives(self):
            return [SD.SchedulingObjectiveEnum.MAKESPAN]

        def _get_successors(self):
            return {j: list(v) for j, v in p.succ.items()}

        def _get_tasks_ids(self):
            return sorted(p.modes)

        def _get_tasks_mode(self):
            return {j: SD_modes.ConstantModeConsumption({r: v for r, v in ms[1].items() if r != 'duration'}) for j, ms in p.modes.items()}

        def _get_task_duration(self, task, mode=1, progress_from=0.):
            return p.modes[task][mode]['duration']

        def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
            return DiscreteDistribution(dist[task])

        def _get_original_quantity_resource(self, resource, **kwargs):
            return p.res[resource]

        def _get_resource_types_names(self):
            return list(p.res)
    if dist is not None:
        del Mine._get_task_duration
    else:
        del Mine._get_task_duration_distribution
    return Mine()


def g_user(run, rng):
    """domains written by a user: the optimisation model describes the same project"""
    p = S.project(rng, 'single')
    while p.nonren:
        p = S.project(rng, 'single')
    d = user_domain(p)
    with quiet():
        m = B.build_do_domain(d)
    same_project(run, p, m, 'user-model')
    run.hit('user')
    for _ in range(3):
        perm, modes = G.rand_perm(rng, p), G.rand_modes(rng, p)
        with quiet():
            a = RM.RCPSPSolution(problem=m, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
            ok, sched = G.sgs(p, perm, modes)
            sat = m.satisfy(a)
        run.check(bool(sat) == ok and (not ok or G.sched_of(a) == sched), 'user-model:decoding', lambda: f'{a.rcpsp_schedule} {sched} {perm} {p}')
        if ok:
            s, bad = replay(run, p, d, sched, modes)
            run.check(bad is None and S.schedule_of(s) == sched, 'user:replay', lambda: f'{bad} {sched} {p}')
    # uncertain durations: the model is one of the possible deterministic projects, and all of them occur
    dist = {j: [(ms[1]['duration'], .5), (ms[1]['duration'] + rng.randint(1, 3), .5)] if ms[1]['duration'] and rng.random() < .6 else [(ms[1]['duration'], 1)] for j, ms in p.modes.items()}
    u = user_domain(p, dist)
    seen = {j: set() for j in p.modes}
    for _ in range(24):
        with quiet():
            m = B.build_do_domain(u)
        q = copy.deepcopy(p)
        for j in p.modes:
            dur = m.mode_details[j][1]['duration']
            run.check(dur in [v for v, _ in dist[j]], 'user-uncertain:duration', lambda: f'{j} {dur} {dist}')
            q.modes[j][1]['duration'] = dur
            seen[j].add(dur)
        same_project(run, q, m, 'user-uncertain')
        run.hit('events')
    run.check(any(len(v) > 1 for v in seen.values()) or all(len(v) == 1 for v in dist.values()), 'user-uncertain:never-varies', lambda: f'{seen} {dist}')
    run.case(repr(p), p.n >= 3)


def g_convert(run, rng):
    p = S.project(rng, overload=rng.random() < 0.1)
    p.horizon = max(1, p.horizon - (rng.randint(0, 4) if rng.random() < .2 and not p.calendar else 0))
    with quiet():
        m = G.build(p) if rng.random() < .8 or p.calendar else G.build(p, rng.choice(['multi', 'base']))
        flat = p.calendar and rng.random() < .3
        d = B.build_sk_domain(m, varying_ressource=p.calendar and not flat)
    q = p if not flat else G.P({r: max(v) for r, v in p.res.items()}, p.nonren, p.modes, p.succ, p.horizon, 1, False)
    same_domain(run, q, d, 'to-domain')
    with quiet():
        back = B.build_do_domain(d)
    same_project(run, q, back, 'to-model')
    run.hit('converted')
    if p.calendar:
        run.hit('calendar')
    # the models decode permutations to the same schedules
    for _ in range(3):
        modes = G.rand_modes(rng, p)
        perm = G.rand_perm(rng, p)
        with quiet():
            a = RM.RCPSPSolution(problem=back, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
            ok, sched = G.sgs(q, perm, modes)
            sat = back.satisfy(a)
        run.check(bool(sat) == ok and (not ok or G.sched_of(a) == sched), 'to-model:decoding', lambda: f'{a.rcpsp_schedule} {sched} {perm} {modes} {q}')
    run.case(repr(p), p.n >= 3)


def g_noise(run, rng):
    p = S.project(rng, rng.choice(['single', 'multi']), nmax=4)
    d = S.domain(p, rng)
    some = rng.random() < .5
    noisy = set(rng.sample(sorted(p.modes), rng.randint(0, len(p.modes)))) if some else None
    st = H.build_stochastic_from_deterministic(d, noisy) if some else H.build_stochastic_from_deterministic(d)
    run.hit('noise')
    x = copy.copy(p)
    x.horizon = p.horizon * 2
    same_domain(run, x, st, 'stochastic')
    for j in p.modes:
        for k, m in p.modes[j].items():
            dist = {}
            for v, pr in st.get_task_duration_distribution(task=j, mode=k).get_values():
                dist[v] = dist.get(v, 0) + pr
            run.check(abs(sum(dist.values()) - 1) < 1e-9 and min(dist) >= 0, 'stochastic:probabilities', lambda: f'{dist}')
            if m['duration'] == 0 or (noisy is not None and j not in noisy):
                run.check(dist == {m['duration']: 1}, 'stochastic:certain', lambda: f'{j} {dist} {m} {noisy}')
            else:
                run.check(m['duration'] in dist and len(dist) > 1 and min(dist) >= 1, 'stochastic:noise', lambda: f'{j} {dist} {m}')
    # samples: each a deterministic project with durations of the distribution
    n = rng.randint(1, 4)
    inst = H.build_n_determinist_from_stochastic(st, n)
    run.check(len(inst) == n, 'sampled:number', lambda: len(inst))
    for i in inst:
        run.hit('sampled')
        y = copy.deepcopy(x)
        for j in y.modes:
            for k, m in y.modes[j].items():
                dur = i.get_task_duration(task=j, mode=k)
                run.check(dur in [v for v, pr in st.get_task_duration_distribution(task=j, mode=k).get_values() if pr > 0], 'sampled:duration', lambda: f'{j} {k} {dur}')
                m['duration'] = dur
        same_domain(run, y, i, 'sampled')
        run.check(y.modes == {j: {k: dict({r: v for r, v in m.items()}) for k, m in ms.items()} for j, ms in y.modes.items()}, 'sampled:needs')
        modes = G.rand_modes(rng, y)
        ok, sched = G.sgs(y, G.rand_perm(rng, y), modes)
        if ok and sched[p.sink][1] <= y.horizon:
            s, bad = replay(run, y, i, sched, modes)
            run.check(bad is None and S.schedule_of(s) == sched, 'sampled:replay', lambda: f'{bad} {sched} {y}')
    # a walk through the uncertain domain
    s = st.get_initial_state()
    for _ in range(80):
        if st.is_terminal(s):
            break
        acts = list(st.get_applicable_actions(s).get_elements())
        a = rng.choice(acts)
        s = st.sample(s, a).observation if hasattr(st, 'sample') else s
        run.hit('events')
    if st.is_goal(s):
        got = S.schedule_of(s)
        ms = [s.tasks_mode[j] for j in range(2, p.n + 2)]
        z = S.actual(p, got, ms)
        z.horizon = x.horizon
        run.check(G.valid(z, got, ms) is None, 'stochastic:walk', lambda: f'{G.valid(z, got, ms)} {got} {ms} {p}')
        for j, (a, b) in got.items():
            run.check(b - a in [v for v, pr in st.get_task_duration_distribution(task=j, mode=s.tasks_mode[j]).get_values() if pr > 0], 'stochastic:duration', lambda: f'{j} {a} {b}')
    run.case(repr(p), p.n >= 3)


def g_smcal(run, rng):
    """calendars with uncertain durations"""
    p = S.project(rng, rng.choice(['calendar', 'mcalendar']), nmax=4)
    dist = {j: {k: DiscreteDistribution([(m['duration'], .5), (m['duration'] + 1, .5)] if m['duration'] and rng.random() < .5 else [(m['duration'], 1)]) for k, m in ms.items()} for j, ms in p.modes.items()}
    d = H.SMRCPSPCalendar(resource_names=list(p.res), task_ids=sorted(p.modes), tasks_mode=copy.deepcopy(p.modes), successors=copy.deepcopy(p.succ), duration_distribution=dist, max_horizon=p.horizon,
                          resource_availability=copy.deepcopy(p.res), resource_renewable={r: r not in p.nonren for r in p.res})
    run.hit('smcal')
    same_domain(run, p, d, 'smcal')
    s = d.get_initial_state()
    for _ in range(80):
        if d.is_terminal(s):
            break
        s = d.sample(s, rng.choice(list(d.get_applicable_actions(s).get_elements()))).observation
        run.check({r: s.resource_availability[r] for r in p.res} == {r: p.cap(r, s.t) if s.t < len(p.res[r]) else 0 if r not in p.nonren else p.res[r][-1] for r in p.res}, 'smcal:availability', lambda: f'{s.t} {s.resource_availability} {p}')
        run.hit('events')
    if d.is_goal(s):
        got = S.schedule_of(s)
        ms = [s.tasks_mode[j] for j in range(2, p.n + 2)]
        z = S.actual(p, got, ms)
        why = G.valid(z, got, ms)
        run.check(why in (None, 'renewable'), 'smcal:walk', lambda: f'{why} {got} {p}')
    run.case(repr(p), p.n >= 3)


def g_load(run, rng):
    with quiet():
        files = sorted(os.path.basename(f) for f in rcpsp_parser.get_data_available() if f.endswith(('.sm', '.mm')))
    if files:
        f = rng.choice(files)
        with quiet():
            d = SP.load_domain(f)
            m = rcpsp_parser.parse_file([x for x in rcpsp_parser.get_data_available() if x.endswith(os.sep + f)][0])
        p = G.P({r: int(v) for r, v in m.resources.items()}, list(m.non_renewable_resources), m.mode_details, m.successors, m.horizon, 1, False)
        same_domain(run, p, d, 'loaded')
        for j in p.modes:
            for k, x in p.modes[j].items():
                run.eq(d.get_task_duration(task=j, mode=k), x['duration'], 'loaded:duration')
        with quiet():
            same_project(run, p, B.build_do_domain(d), 'loaded-model')
        run.hit('loaded')
        run.case(f)


# multi-skill

def ms_names(p, d):
    """worker identifiers of the project by unit name of the domain (names are the identifiers written out)"""
    return {str(e): e for e in p.ids}


def g_msload(run, rng):
    """the loader of multi-skill projects, on generated files of the benchmark's format"""
    text, emp, sal, tasks, skills = MS.imopse(rng)
    tmp = tempfile.mkdtemp(prefix='vk30')
    real = MS.PA.get_data_available
    try:
        f = os.path.join(tmp, 'x.def')
        open(f, 'w').write(text)
        MS.PA.get_data_available = lambda: [f]
        with quiet():
            d = SP.load_multiskill_domain()
    finally:
        MS.PA.get_data_available = real
        shutil.rmtree(tmp)
    run.hit('ms-loaded')
    n = len(tasks)
    new = {t: j + 2 for j, t in enumerate(sorted(tasks))}
    run.check(sorted(d.get_tasks_ids()) == list(range(1, n + 3)), 'ms-loaded:tasks', lambda: f'{d.get_tasks_ids()} {text}')
    units = {e: [u for u in d.get_resource_units_names() if u.rsplit('-', 1)[-1] == str(e)] for e in emp}
    if not run.check(all(len(u) == 1 for u in units.values()) and len(d.get_resource_units_names()) == len(emp), 'ms-loaded:workers', lambda: f'{d.get_resource_units_names()} {text}'):
        return
    ren = d.get_resource_renewability()
    for e, sk in emp.items():
        u = units[e][0]
        run.check(dict(d.get_skills_of_resource(u)) == {s: v + 1 for s, v in sk.items()}, 'ms-loaded:skills', lambda: f'{u} {d.get_skills_of_resource(u)} {text}')
        run.check(d.get_original_quantity_resource(u) == 1 and all(d.get_quantity_resource(u, time=t) == 1 for t in (0, 3, 50)) and ren[u], 'ms-loaded:one-worker', lambda: f'{u}')
    used = {s for e in emp.values() for s in e} | {s for t in tasks.values() for s in t[1]}
    run.check(set(d.get_skills_names()) == used, 'ms-loaded:skill-names', lambda: f'{d.get_skills_names()} {text}')
    succ = d.get_successors()
    got = {(i, j) for i in succ for j in succ[i] if i != 1 and j != n + 2}
    run.check(got == {(new[q], new[t]) for t in tasks for q in tasks[t][2]}, 'ms-loaded:precedence', lambda: f'{succ} {text}')
    for t, (dur, sk, _) in tasks.items():
        run.check(set(d.get_task_modes(new[t])) == {1} and d.get_task_duration(new[t], 1) == dur, 'ms-loaded:duration', lambda: f'{t} {text}')
        run.check({s: v for s, v in d.get_skills_of_task(new[t], 1).items() if v} == {s: v + 1 for s, v in sk.items()}, 'ms-loaded:needs', lambda: f'{t} {d.get_skills_of_task(new[t], 1)} {text}')
    run.check(d.get_max_horizon() >= sum(t[0] for t in tasks.values()), 'ms-loaded:horizon', lambda: f'{d.get_max_horizon()}')
    # one task after the other, each with every worker it needs, is a run of the domain to its goal
    s = d.get_initial_state()
    order = sorted(new.values(), key=lambda j: 0)
    preds = {new[t]: {new[q] for q in tasks[t][2]} for t in tasks}
    topo = []
    while len(topo) < n:
        topo.append(next(j for j in order if j not in topo and preds[j] <= set(topo)))
    s = d.get_next_state(s, start(1, 1))
    old = {j: t for t, j in new.items()}
    for j in topo:
        need = {k: v + 1 for k, v in tasks[old[j]][1].items()}
        team = []
        for k, v in need.items():
            for e in sorted(emp, key=lambda e: -emp[e].get(k, -1)):
                if sum(emp[x].get(k, -1) + 1 for x in team) >= v:
                    break
                if e not in team:
                    team.append(e)
        if any(sum(emp[x].get(k, -1) + 1 for x in team) < v for k, v in need.items()):
            return                                                      # nobody can do it
        # only workers somebody needs
        for e in list(team):
            rest = [x for x in team if x != e]
            if all(sum(emp[x].get(k, -1) + 1 for x in rest) >= v for k, v in need.items()):
                team = rest
        a = start(j, 1, [units[e][0] for e in team] or None)
        run.check(d.check_if_action_can_be_started(s, a)[0], 'ms-loaded:refused', lambda: f'{a} {text}')
        s = d.get_next_state(s, a)
        for _ in range(tasks[old[j]][0]):
            s = d.get_next_state(s, wait())
            run.hit('events')
    s = d.get_next_state(s, start(n + 2, 1))
    s = d.get_next_state(s, wait()) if not d.is_goal(s) else s
    run.check(d.is_goal(s) and s.tasks_details[n + 2].start == sum(t[0] for t in tasks.values()), 'ms-loaded:run', lambda: f'{S.schedule_of(s)} {text}')
    run.hit('ms-loaded-run')
    run.case(text, n >= 3)


def ms_same_domain(run, p, d, varying, mech):
    names = ms_names(p, d)
    run.check(sorted(d.get_tasks_ids()) == sorted(p.modes) and d.get_max_horizon() == p.horizon, mech + ':tasks')
    run.check({j: sorted(v) for j, v in d.get_successors().items()} == {j: sorted(v) for j, v in p.succ.items()}, mech + ':successors')
    run.check(sorted(d.get_resource_units_names()) == sorted(names) and sorted(d.get_resource_types_names()) == sorted(p.res), mech + ':names', lambda: f'{d.get_resource_units_names()} {p}')
    ren = d.get_resource_renewability()
    run.check(all(bool(ren[r]) == (r not in p.N) for r in p.res) and all(ren[e] for e in names), mech + ':renewability', lambda: f'{ren} {p}')
    for e, i in names.items():
        run.check({s: v for s, v in d.get_skills_of_resource(e).items() if v} == {s: v for s, v in p.emp[i].items() if v}, mech + ':skills', lambda: f'{e} {d.get_skills_of_resource(e)} {p}')
    for t in range(p.horizon):
        for e, i in names.items():
            run.check(bool(d.get_quantity_resource(e, time=t)) == (bool(p.cal[i][t]) if varying else True), mech + ':workers', lambda: f'{e} {t} {p}')
        for r in p.res:
            run.check(d.get_quantity_resource(r, time=t) == (p.res[r][t] if varying else p.res[r][0]), mech + ':quantities', lambda: f'{r} {t} {p}')
    for r in p.res:
        run.check(varying or d.get_original_quantity_resource(r) == p.res[r][0], mech + ':original-quantity', lambda: f'{r} {p}')
    for j in p.modes:
        for k, m in p.modes[j].items():
            run.check(d.get_task_duration(task=j, mode=k) == m['duration'], mech + ':duration')
            run.check(d.get_skills_of_task(j, k) == MS.need(p, j, k), mech + ':needs', lambda: f'{d.get_skills_of_task(j, k)} {m} {p}')
            run.check(all(d.get_task_modes(j)[k].get_resource_need_at_time(r, time=0) == m.get(r, 0) for r in p.res), mech + ':resource-needs', lambda: f'{j} {k} {p}')


def g_ms(run, rng):
    many = rng.random() < .15
    p = MS.gen(rng, n=rng.randint(1, 5), single=False, ids=None)
    if many:                                                            # so many workers that names and numbers sort differently
        run.hit('ten-workers')
        extra = [i for i in range(13) if i not in p.ids]
        for i in extra:
            p.emp[i] = {s: rng.randint(0, 1) for s in rng.sample(p.skills, rng.randint(1, len(p.skills)))}
            p.cal[i] = list(p.cal[p.ids[0]]) if rng.random() < .5 else [True] * len(p.cal[p.ids[0]])
        p.ids = sorted(p.emp)
    with quiet():
        m = MS.build(p, rng.choice([MM.MS_RCPSPModel, MM.MS_RCPSPModel_Variant]))
        varying = rng.random() < .6
        d = B.build_sk_domain(m, varying_ressource=varying)
    ms_same_domain(run, p, d, varying, 'ms-domain')
    if varying:
        run.hit('ms-calendar')
    with quiet():
        back = B.build_do_domain(d)
    run.hit('ms-converted')
    # in the converted model the workers are numbered: read them by skill and calendar, in the order of their names
    order = [ms_names(p, d)[e] for e in sorted(ms_names(p, d))]
    ids = list(back.employees)
    run.check(len(ids) == len(order), 'ms-model:workers', lambda: f'{ids} {order}')
    num = dict(zip(order, sorted(ids)))
    for e, i in num.items():
        w = back.employees[i]
        run.check({s: x.skill_value for s, x in w.dict_skill.items() if x.skill_value} == {s: v for s, v in p.emp[e].items() if v}, 'ms-model:skills', lambda: f'{e} {i} {w} {p}')
        run.check([bool(x) for x in w.calendar_employee[:p.horizon]] == ([bool(x) for x in p.cal[e][:p.horizon]] if varying else [True] * p.horizon), 'ms-model:calendar', lambda: f'{e} {w.calendar_employee} {p}')
    clean = lambda md: {j: {k: {x: v for x, v in x_.items() if v or x == 'duration'} for k, x_ in ms.items()} for j, ms in md.items()}
    run.check(clean(back.mode_details) == clean(p.modes), 'ms-model:modes', lambda: f'{back.mode_details} {p}')
    run.check({j: sorted(v) for j, v in back.successors.items()} == {j: sorted(v) for j, v in p.succ.items()} and back.horizon == p.horizon and (back.source_task, back.sink_task) == (1, p.sink), 'ms-model:precedence')
    run.check(set(back.non_renewable_resources) == set(p.N) and set(back.resources_set) == set(p.res), 'ms-model:resources', lambda: f'{back.resources_set} {p}')
    run.check(all([int(x) for x in back.resources_availability[r][:p.horizon]] == (p.res[r][:p.horizon] if varying else [p.res[r][0]] * p.horizon) for r in p.res), 'ms-model:availability', lambda: f'{back.resources_availability} {p}')
    run.check(not back.one_unit_per_task_max, 'ms-model:one-worker')
    # schedules of the model, replayed in the domain
    q = copy.copy(p)
    if not varying:
        q.cal = {e: [True] * len(p.cal[e]) for e in p.ids}
        q.res = {r: [v[0]] * len(v) for r, v in p.res.items()}
    modes = MS.rand_modes(rng, q)
    prio = MS.rand_prio(rng, q)
    workers = [rng.sample(order, len(order)) for _ in range(q.n)]
    with quiet():
        sol = MM.MS_RCPSPSolution_Variant(problem=back, priority_list_task=list(prio), modes_vector=list(modes), priority_worker_per_task=[[num[e] for e in w] for w in workers])
        sat = back.satisfy(sol)
    want = MS.ref(q, prio, modes, workers)
    if want is not None and p.horizon > want[0][p.sink][1]:
        sched, usage = want
        run.check(bool(sat) and MS.sched_of(sol) == sched, 'ms-model:decoding', lambda: f'{sol.schedule} {sched} {q}')
        run.check(MS.usage_of(sol) == {j: {num[e]: k for e, k in u.items()} for j, u in usage.items()}, 'ms-model:decoded-workers', lambda: f'{sol.employee_usage} {usage} {num} {q}')
        mode = {1: 1, p.sink: 1, **{j: modes[j - 2] for j in range(2, p.n + 2)}}
        preds = {j: {i for i in p.succ if j in p.succ[i]} for j in p.modes}
        topo = []
        while len(topo) < len(p.modes):
            topo.append(next(j for j in sorted(p.modes) if j not in topo and preds[j] <= set(topo)))
        if all(not any(v for x, v in p.modes[j][mode[j]].items() if x not in p.N) or p.modes[j][mode[j]]['duration'] for j in p.modes):
            back_names = {e: n for n, e in ms_names(p, d).items()}
            s = d.get_initial_state()
            for t in range(sched[p.sink][1] + 1):
                run.check({r: s.resource_availability[r] for r in q.res} == {r: q.res[r][t] for r in q.res}, 'ms-replay:availability', lambda: f'{t} {s.resource_availability} {q}')
                run.check({e: bool(s.resource_availability[n]) for e, n in back_names.items()} == {e: bool(q.cal[e][t]) for e in q.ids}, 'ms-replay:presence', lambda: f'{t} {s.resource_availability} {q}')
                for j in [x for x in topo if sched[x][0] == t]:
                    a = start(j, mode[j], [back_names[e] for e in usage.get(j, {})] or None)
                    run.check(d.check_if_action_can_be_started(s, a)[0], 'ms-replay:refused', lambda: f'{t} {a} {sched} {usage} {q}')
                    run.check(j in d.task_possible_to_launch_precedence(s), 'ms-replay:precedence', lambda: f'{t} {a} {sched} {usage} {q}')
                    if usage.get(j) and rng.random() < .3:
                        # without a worker that is needed the task cannot start
                        less = list(usage[j])
                        less.remove(rng.choice(less))
                        if any(sum(p.emp[e].get(x, 0) for e in less) < v for x, v in MS.need(p, j, mode[j]).items()):
                            run.check(not d.check_if_action_can_be_started(s, start(j, mode[j], [back_names[e] for e in less]))[0], 'ms-replay:skill-missing', lambda: f'{t} {j} {less} {q}')
                    s = d.get_next_state(s, a)
                if t < sched[p.sink][1]:
                    s = d.get_next_state(s, wait())
            run.hit('ms-replayed')
            run.check(S.schedule_of(s) == sched and d.is_goal(s), 'ms-replay:dates', lambda: f'{S.schedule_of(s)} {sched} {q}')
    run.case(repr(p), p.n >= 3)


GROUPS = [('replay', g_replay, 500, 8000), ('convert', g_convert, 400, 6000), ('user', g_user, 60, 1000), ('noise', g_noise, 150, 2500), ('smcal', g_smcal, 80, 1500), ('load', g_load, 3, 10), ('msload', g_msload, 60, 1200), ('ms', g_ms, 250, 4000)]

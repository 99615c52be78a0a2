"""C33 scheduling characteristics and graphs: durations, progress, modes, skills, conditions, windows, active times, states and graph toolboxes describe what they were given."""
import random
from collections import Counter
from enum import Enum

import numpy as np

from skdecide import DiscreteDistribution
from skdecide.builders.scheduling import task_duration as TD, task_progress as TP, time_windows as TW, time_lag as TL, modes as MO, skills as SK, conditional_tasks as CT, precedence as PR, preemptivity as PE
from skdecide.builders.scheduling import resource_availability as RA, resource_costs as RC, resource_consumption as RX, resource_renewability as RR, resource_type as RT, preallocations as PA
from skdecide.builders.scheduling.graph_toolbox import Graph
from skdecide.builders.scheduling.scheduling_domains_modelling import State, SchedulingAction, SchedulingActionEnum
from skdecide.builders.scheduling.task import Task

RULE = 'random tasks, modes, calendars, skills, conditions, graphs and execution histories given to each characteristic alone; non-trivial = at least 2 tasks or nodes'
REQUIRED = {'uniform': 60, 'enumerable': 60, 'deterministic': 60, 'multivariate': 60, 'simulated': 60, 'progress-dependent': 100, 'samples': 2000, 'modes': 100, 'skills': 100, 'conditions': 100, 'windows': 80, 'graphs': 150, 'cyclic-graphs': 30, 'histories': 150, 'states': 100, 'possible': 60, 'precedence': 100}
ASSUMPTIONS = ['active times are asked for the present or for later dates', 'tasks are numbered by integers']


def durations(run, rng):
    tasks = rng.sample(range(9), rng.randint(1, 4))
    prog = rng.random() < .4                                  # durations depend on the progress already made
    froms = [0., .25, .5] if prog else [0.]
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    table = {}
    for t in tasks:
        for m in rng.sample([1, 2, 3], rng.randint(1, 2)):
            for f in froms:
                lo = rng.randint(0, 5)
                vs = sorted(rng.sample(range(lo, lo + 6), rng.randint(1, 4)))
                table[t, m, f] = [(v, rng.randint(1, 4)) for v in vs]
    look = lambda t, m, f: table[t, m, f if (t, m, f) in table else 0.]
    norm = lambda l: {v: w / sum(x for _, x in l) for v, w in l}
    kind = rng.choice(['uniform', 'enumerable', 'deterministic', 'multivariate', 'bounded'])
    calls = []
    if kind == 'uniform':
        class D(TD.UniformBoundedTaskDuration):
            def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.): return look(task, mode, progress_from)[0][0]
            def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.): return look(task, mode, progress_from)[-1][0]
    elif kind == 'deterministic':
        class D(TD.DeterministicTaskDuration):
            def _get_task_duration(self, task, mode=1, progress_from=0.): return look(task, mode, progress_from)[0][0]
    else:
        base = {'enumerable': TD.EnumerableTaskDuration, 'multivariate': rng.choice([TD.UncertainMultivariateTaskDuration, TD.UncertainUnivariateTaskDuration]), 'bounded': TD.UncertainBoundedTaskDuration}[kind]

        class D(base):
            def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
                calls.append(multivariate_settings)
                return DiscreteDistribution(list(norm(look(task, mode, progress_from)).items()))
            if kind == 'bounded':
                def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.): return look(task, mode, progress_from)[0][0]
                def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.): return look(task, mode, progress_from)[-1][0]
    run.hit({'bounded': 'enumerable'}.get(kind, kind))
    if prog:
        run.hit('progress-dependent')
    d = D()
    d.sampled_durations = {}
    for (t, m, f), l in table.items():
        want = norm(l)
        if kind == 'uniform':
            want = {v: 1 / (l[-1][0] - l[0][0] + 1) for v in range(l[0][0], l[-1][0] + 1)}
        elif kind == 'deterministic':
            want = {l[0][0]: 1}
        C = lambda: f'{kind} task {t} mode {m} from {f}: {l}'
        args = [dict(task=t, mode=m, progress_from=f), dict(task=t, mode=m)][0 if f or rng.random() < .5 else 1]
        got = Counter()
        for v, p in d.get_task_duration_distribution(**args).get_values():
            got[v] += p
        run.check(set(got) == set(want) and all(abs(got[v] - want[v]) < 1e-9 for v in want), f'duration:{kind}-distribution', lambda: f'{got} {want} {C()}')
        for _ in range(6):
            x = d.sample_task_duration(**args)
            run.hit('samples')
            run.check(x in want, f'duration:{kind}-sample', lambda: f'{x} {want} {C()}')
        if kind != 'multivariate':
            run.check((d.get_task_duration_lower_bound(**args), d.get_task_duration_upper_bound(**args)) == (min(want), max(want)), f'duration:{kind}-bounds', lambda: f'{want} {C()}')
        if kind == 'deterministic':
            run.check(d.get_task_duration(**args) == l[0][0], 'duration:value', C)
    if kind in ('multivariate', 'enumerable'):
        d.get_task_duration_distribution(t, m, 0., {'a': 3})
        run.check(calls[-1] == {'a': 3}, 'duration:settings')
    # simulated durations are drawn once per task, mode and progress until forgotten
    drawn = []

    class S(TD.SimulatedTaskDuration, TP.DeterministicTaskProgress):
        def _sample_task_duration(self, task, mode=1, progress_from=0.):
            drawn.append((task, mode, progress_from))
            return rng.choice([v for v, _ in look(task, mode, progress_from)] + [0])
    s = S()
    s.sampled_durations = {}
    known = {}
    for _ in range(30):
        k = rng.choice(list(table))
        n = len(drawn)
        f = rng.choice([s.sample_task_duration, s.get_latest_sampled_duration])
        x = f(*k)
        run.hit('simulated')
        run.check(drawn[n:] == ([] if k in known else [k]), 'simulated:draws', lambda: f'{k} {drawn[n:]} {known}')
        run.check(known.setdefault(k, x) == x, 'simulated:changed', lambda: f'{k} {x} {known}')
        t, m, _ = k
        a, b = sorted((rng.randint(0, 9), rng.randint(0, 9)))
        z = rng.choice([None, None, 0, 3])
        if z is None and (t, m, 0.) not in known:
            continue
        dur = known[t, m, 0.] if z is None else z
        p = s.get_task_progress(t, a, b, m, z) if z is not None or rng.random() < .5 else s.get_task_progress(t, a, b, m)
        run.check(abs(p - (1 if not dur else (b - a) / dur)) < 1e-12, 'progress', lambda: f'{p} {a} {b} {dur}')
        if rng.random() < .05:
            s.sampled_durations = {}
            known = {}
    run.case((kind, sorted(table.items())), len(tasks) > 1)


def structure(run, rng):
    tasks = rng.sample(range(1, 12), rng.randint(1, 6))
    types = [f'r{i}' for i in range(rng.randint(0, 3))]
    units = [f'u{i}' for i in range(rng.randint(0, 3))]
    names = types + units
    # modes
    T = 6
    need = {t: {m: {r: [rng.randint(0, 3) for _ in range(T)] for r in names if rng.random() < .7} for m in rng.sample([1, 2, 3], rng.randint(1, 3))} for t in tasks}
    single, const = rng.random() < .4, rng.random() < .5
    if single:
        need = {t: {1: next(iter(need[t].values()))} for t in need}
    if const:
        need = {t: {m: {r: [v[0]] * T for r, v in x.items()} for m, x in ms.items()} for t, ms in need.items()}
    mk = lambda x: MO.ConstantModeConsumption({r: v[0] for r, v in x.items()}) if const else MO.VaryingModeConsumption({r: list(v) for r, v in x.items()})
    ren = {r: rng.random() < .5 for r in names}
    succ = {t: [] for t in tasks}
    order = tasks[:]
    rng.shuffle(order)
    for i, t in enumerate(order):
        succ[t] = [k for k in order[i + 1:] if rng.random() < .4]
    skn = ['S1', 'S2', 'S3']
    rs = {u: {k: rng.randint(0, 2) for k in skn if rng.random() < .6} for u in units}
    ts = {t: {m: {k: rng.randint(0, 3) for k in skn if rng.random() < .5} for m in need[t]} for t in tasks}
    cond = Enum('Cd', 'A B C')
    exist = {t: rng.sample(list(cond), rng.randint(0, 2)) for t in tasks if rng.random() < .6}
    added = {t: [{c: 1 / 2 for c in rng.sample(list(cond), 2)} for _ in range(rng.randint(0, 2))] for t in tasks}
    qty = {r: rng.randint(0, 5) for r in names}
    H = rng.randint(5, 50)
    D = lambda: f'{need} {ren} {succ} {rs} {ts} {exist} {qty}'

    class A(MO.SingleMode if single else MO.MultiMode, PR.WithPrecedence, SK.WithResourceSkills, CT.WithConditionalTasks, PE.WithoutPreemptivity, RA.WithoutResourceAvailabilityChange, RC.WithoutModeCosts, RC.WithoutResourceCosts, RT.WithResourceTypes, RT.WithResourceUnits,
            RR.MixedRenewable, TW.WithoutTimeWindow, TL.WithoutTimeLag, PA.WithoutPreallocations, TD.DeterministicTaskDuration, RX.ConstantResourceConsumption if const else RX.VariableResourceConsumption):
        def _get_tasks_ids(self): return list(tasks)
        def _get_successors(self): return {t: list(v) for t, v in succ.items()}
        def _get_all_resources_skills(self): return {u: dict(v) for u, v in rs.items()}
        def _get_all_tasks_skills(self): return ts
        def _get_all_condition_items(self): return cond
        def _get_task_existence_conditions(self): return exist
        def _get_task_on_completion_added_conditions(self): return {t: [DiscreteDistribution(list(x.items())) for x in l] for t, l in added.items()}
        def _get_original_quantity_resource(self, resource, **kw): return qty[resource]
        def _get_resource_types_names(self): return list(types)
        def _get_resource_units_names(self): return list(units)
        def _get_resource_type_for_unit(self): return {}
        def _get_resource_renewability(self): return dict(ren)
        def _get_task_duration(self, task, mode=1, progress_from=0.): return 1
        def get_max_horizon(self): return H
        if single:
            def _get_tasks_mode(self): return {t: mk(need[t][1]) for t in tasks}
        else:
            def _get_tasks_modes(self): return {t: {m: mk(x) for m, x in need[t].items()} for t in tasks}
    a = A()
    a.sampled_durations = {}
    run.check(a.get_variable_resource_consumption() == (not const), 'consumption:flag')
    run.hit('modes')
    run.check({t: set(v) for t, v in a.get_tasks_modes().items()} == {t: set(v) for t, v in need.items()}, 'modes:list', D)
    for t in tasks:
        for m, x in need[t].items():
            mode = a.get_task_modes(t)[m]
            run.check(set(a.get_ressource_names_for_task_mode(t, m)) == set(x) == set(mode.get_ressource_names()), 'modes:names', D)
            for r in names:
                for k in range(T):
                    want = x.get(r, [0] * T)[k]
                    run.check(a.get_task_consumption(t, m, r, k) == want == mode.get_resource_need_at_time(r, k), 'modes:need', lambda: f'{t} {m} {r} {k} {D()}')
                if const:
                    run.check(mode.get_resource_need(r) == x.get(r, [0])[0], 'modes:need', D)
            k = rng.randrange(T)
            run.check(set(mode.get_non_zero_ressource_need_names(k)) == {r for r in x if x[r][k] > 0}, 'modes:non-zero', lambda: f'{t} {m} at {k}: {mode.get_non_zero_ressource_need_names(k)} {D()}')
    # precedence
    run.hit('precedence')
    a.graph = a.compute_graph()
    desc = {}
    for t in reversed(order):
        desc[t] = set(succ[t]) | {x for k in succ[t] for x in desc[k]}
    anc = {t: {k for k in tasks if t in desc[k]} for t in tasks}
    a.ancestors = a.graph.ancestors_map()
    run.check({t: set(v) for t, v in a.ancestors.items()} == anc, 'precedence:ancestors', D)
    run.check({t: set(v) for t, v in a.graph.descendants_map().items()} == desc, 'precedence:descendants', D)
    run.check(a.get_successors() == succ and all(a.get_successors_task(t) == succ[t] and sorted(a.get_predecessors_task(t)) == sorted(k for k in tasks if t in succ[k]) for t in tasks), 'precedence:maps', D)
    st = State(list(tasks), set(tasks))
    st._current_conditions = set(rng.sample(list(cond), rng.randint(0, 3)))
    done = set()
    for t in order:
        if rng.random() < .5 and anc[t] <= done:
            done.add(t)
    st.tasks_complete = set(done)
    st.tasks_remaining = {t for t in tasks if t not in done and rng.random() < .8}
    avail = {t for t in tasks if all(c in st._current_conditions for c in exist.get(t, []))}
    run.hit('conditions')
    run.check(set(a.get_available_tasks(st)) == avail, 'conditions:available', lambda: f'{a.get_available_tasks(st)} {st._current_conditions} {D()}')
    run.check(set(a.get_all_unconditional_tasks()) == {t for t in tasks if not exist.get(t)}, 'conditions:unconditional', D)
    can = {t for t in st.tasks_remaining if all(k in done for k in anc[t] if k in avail)}
    run.check(set(a.task_possible_to_launch_precedence(st)) == can, 'precedence:possible', lambda: f'{st} {D()}')
    run.check(Counter(a.task_modes_possible_to_launch(st)) == Counter((t, m) for t in can for m in need[t]), 'precedence:possible-modes', lambda: f'{st} {D()}')
    t = rng.choice(tasks)
    before = set(st._current_conditions)
    a.add_to_current_conditions(t, st)
    new = st._current_conditions - before
    run.check(before <= st._current_conditions and new <= {c for x in added[t] for c in x} and all(set(x) & st._current_conditions for x in added[t]), 'conditions:added', lambda: f'{t} {added[t]} {before} {st._current_conditions}')
    got = a.sample_completion_conditions(t)
    run.check(len(got) == len(added[t]) and all(c in x for c, x in zip(got, added[t])), 'conditions:sample', lambda: f'{got} {added[t]}')
    # skills
    run.hit('skills')
    run.check(set(a.get_skills_names()) == {k for v in rs.values() for k in v} | {k for v in ts.values() for x in v.values() for k in x}, 'skills:names', D)
    for t in tasks:
        for m in ts[t]:
            want = {k: v for k, v in ts[t][m].items() if v > 0}
            run.check(a.get_skills_of_task(t, m) == want, 'skills:task', D)
            one = [u for u in rs if all(rs[u].get(k, 0) >= v for k, v in want.items())]
            run.check(sorted(map(str, a.find_one_ressource_to_do_one_task(t, m))) == sorted(map(str, one if want else [None])), 'skills:one-resource', D)
            team = rng.sample(units, rng.randint(0, len(units)))
            run.check(bool(a.check_if_skills_are_fulfilled(t, m, {u: 1 for u in team})) == all(sum(rs[u].get(k, 0) for u in team) >= v for k, v in want.items()), 'skills:fulfilled', lambda: f'{t} {m} {team} {D()}')
    run.check(all(a.get_skills_of_resource(u) == rs[u] for u in units), 'skills:resource', D)

    class NoSkill(A, SK.WithoutResourceSkills, CT.WithoutConditionalTasks):
        get_skills_of_task = SK.WithoutResourceSkills.get_skills_of_task
        get_skills_of_resource = SK.WithoutResourceSkills.get_skills_of_resource
        check_if_skills_are_fulfilled = SK.WithoutResourceSkills.check_if_skills_are_fulfilled
        _get_all_resources_skills = SK.WithoutResourceSkills._get_all_resources_skills
        _get_all_tasks_skills = SK.WithoutResourceSkills._get_all_tasks_skills
        _get_task_existence_conditions = CT.WithoutConditionalTasks._get_task_existence_conditions
        _get_task_on_completion_added_conditions = CT.WithoutConditionalTasks._get_task_on_completion_added_conditions
    b = NoSkill()
    run.check(not b.get_skills_names() and b.check_if_skills_are_fulfilled(t, m, {}) and not b.get_skills_of_task(t, m), 'skills:without', D)
    run.check(set(b.get_available_tasks(st)) == set(tasks) == set(b.get_all_unconditional_tasks()), 'conditions:without', D)
    # resources
    r = rng.choice(names) if names else None
    if r:
        k = rng.randint(0, 20)
        run.check(a.get_quantity_resource(r, k) == qty[r] == a.sample_quantity_resource(r, k) == a.get_original_quantity_resource(r), 'availability', D)
        run.check(a.is_renewable(r) == ren[r], 'renewability', D)
    run.check(bool(a.check_unique_resource_names()) == (len(names) > 0), 'resource-names:unique', D)
    if names:
        b.dup = names + [names[0]]
        b._get_resource_types_names = lambda: b.dup
        run.check(not b.check_unique_resource_names(), 'resource-names:duplicate', D)
    run.check(a.get_mode_costs() == {t: {m: 0 for m in need[t]} for t in tasks} and a.get_resource_cost_per_time_unit() == {r: 0 for r in names}, 'costs:without', D)
    run.check(a.get_task_preemptivity() == {t: False for t in tasks} and a.get_task_resuming_type() == {t: PE.ResumeType.NA for t in tasks} and set(a.get_task_paused_non_renewable_resource_returned()) == set(tasks), 'preemptivity:without', D)
    run.check(a.get_preallocations() == {} and a.get_time_lags() == {}, 'without', D)
    w = a.get_time_window()
    run.check(set(w) == set(tasks) and all((x.earliest_start, x.latest_start, x.earliest_end, x.latest_end) == (0, H, 0, H) for x in w.values()), 'windows:without', D)
    if const:
        run.hit('possible')
        st.resource_availability = {r: qty[r] for r in names}
        st.resource_used = {r: rng.randint(0, qty[r]) for r in names}
        want = all(any(all(ren[r] or x.get(r, [0])[0] <= qty[r] - st.resource_used[r] for r in types) for x in need[t].values()) for t in st.tasks_remaining)
        run.check(bool(a.all_tasks_possible(st)) == want, 'renewability:all-tasks-possible', lambda: f'{want} {st.resource_used} {st.tasks_remaining} {D()}')

    class AllRen(A):
        _get_resource_renewability = RR.RenewableOnly._get_resource_renewability
    run.check(AllRen().get_resource_renewability() == {r: True for r in names}, 'renewability:only', D)

    class NoPrec(A):
        _get_successors = PR.WithoutPrecedence._get_successors
        _get_predecessors = PR.WithoutPrecedence._get_predecessors
    run.check(NoPrec().get_successors() == {t: [] for t in tasks} == NoPrec().get_predecessors(), 'precedence:without', D)

    class NoRes(A):
        _get_resource_types_names = RT.WithoutResourceTypes._get_resource_types_names
        _get_resource_units_names = rng.choice([RT.WithoutResourceUnit, RT.SingleResourceUnit])._get_resource_units_names
    run.check(NoRes().get_resource_types_names() == [] and NoRes().get_resource_units_names() in ([], ['single_resource']), 'resources:without')
    # windows and lags
    run.hit('windows')
    p, q, u, v = (rng.randint(0, H) for _ in range(4))
    for obj, want in ((TW.TimeWindow(p, q, u, v, H), (p, q, u, v)), (TW.ClassicTimeWindow(p, v, H), (p, H, 0, v)), (TW.StartFromOnlyTimeWindow(p, H), (p, H, 0, H)), (TW.StartBeforeOnlyTimeWindow(q, H), (0, q, 0, H)), (TW.EndFromOnlyTimeWindow(u, H), (0, H, u, H)),
                      (TW.EndBeforeOnlyTimeWindow(v, H), (0, H, 0, v)), (TW.StartTimeWindow(p, q, H), (p, q, 0, H)), (TW.EndTimeWindow(u, v, H), (0, H, u, v)), (TW.EmptyTimeWindow(H), (0, H, 0, H))):
        run.check((obj.earliest_start, obj.latest_start, obj.earliest_end, obj.latest_end) == want, f'windows:{type(obj).__name__}', lambda: f'{vars(obj)} {want}')
    x = TL.TimeLag(p, q)
    run.check((x.minimum_time_lag, x.maximum_time_lags) == (p, q), 'lags')
    x = TL.MaximumOnlyTimeLag(q)
    run.check((x.minimum_time_lag, x.maximum_time_lags) == (0, q), 'lags:maximum')
    x = TL.MinimumOnlyTimeLag(p)
    run.check(x.minimum_time_lag == p and x.maximum_time_lags >= H + 10 ** 6, 'lags:minimum')
    run.case(D(), len(tasks) > 1)


def graphs(run, rng):
    n = rng.randint(1, 8)
    names = rng.sample(range(30), n) if rng.random() < .5 else [f'n{i}' for i in range(n)]
    und = rng.random() < .4
    nodes = [(x, {'w': rng.randint(0, 9)}) for x in names]
    pairs = [(a, b) for a in names for b in names if a != b]
    acyclic = rng.random() < .5
    if acyclic or und:
        pairs = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    edges = [(a, b, {'c': rng.randint(0, 9)}) for a, b in rng.sample(pairs, rng.randint(0, min(len(pairs), 12)))]
    rng.shuffle(nodes)
    g = Graph(nodes, edges, und)
    D = lambda: f'{nodes} {edges} undirected={und}'
    run.hit('graphs')
    info = {(a, b): c for a, b, c in edges}
    if und:
        info.update({(b, a): c for a, b, c in edges})
    out = {x: {b for a, b in info if a == x} for x in names}
    inc = {x: {a for a, b in info if b == x} for x in names}
    run.check(list(g.get_nodes()) == sorted(names), 'graph:nodes', D)
    run.check(set(g.get_edges()) == set(info), 'graph:edges', D)

    def closure(step, x):
        seen, todo = set(), [x]
        while todo:
            for y in step[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen - {x}
    up = {x: closure(inc, x) for x in names}
    for x in names:
        run.check(set(g.get_neighbors(x)) == out[x] and set(g.get_predecessors(x)) == inc[x], 'graph:neighbours', D)
        run.check(g.get_attr_node(x, 'w') == dict(nodes)[x]['w'] and g.get_attr_node(x, 'z') is None and g.get_attr_node('nowhere', 'w') is None, 'graph:node-attribute', D)
        run.check(set(g.precedessors_nodes(x)) == up[x], 'graph:ancestors', D)
        for y in names:
            run.check(g.get_attr_edge(x, y, 'c') == info.get((x, y), {}).get('c'), 'graph:edge-attribute', D)
    run.check({x: set(v) for x, v in g.ancestors_map().items()} == up, 'graph:ancestors', D)
    run.check({x: set(v) for x, v in g.descendants_map().items()} == {x: closure(out, x) for x in names}, 'graph:descendants', D)
    run.check({x: Counter(v) for x, v in g.successors_map().items()} == {x: Counter(out[x]) for x in names}, 'graph:successors', D)
    if not und:
        run.check({x: Counter(v) for x, v in g.predecessors_map().items()} == {x: Counter(inc[x]) for x in names}, 'graph:predecessors', D)
        loop = any(x in closure(out, y) for x in names for y in out[x]) or any(x in out[y] and y in out[x] for x in names for y in names)
        c = g.check_loop()
        run.check((c is not None) == loop, 'graph:loop', lambda: f'{c} {D()}')
        if loop:
            run.hit('cyclic-graphs')
            if c:
                run.check(all(c[i][1] == c[(i + 1) % len(c)][0] and tuple(c[i][:2]) in info for i in range(len(c))), 'graph:not-a-loop', lambda: f'{c} {D()}')
    h = g.to_networkx()
    run.check(set(h.nodes()) == set(names) and {frozenset(e) if und else e for e in h.edges()} == {frozenset(e) if und else e for e in info} and all(h.edges[a, b]['c'] == c['c'] for a, b, c in edges), 'graph:networkx', D)
    run.case(D(), n > 1)


def history(run, rng):
    """the active time of a task is the number of dates it was really active"""
    t = Task(rng.randint(0, 9))
    run.check(t.get_task_active_time(rng.randint(0, 9)) == 0, 'active:not-started')
    now = rng.randint(0, 5)
    t.start = now
    active, on = 0, True
    log = [('start', now)]
    for _ in range(rng.randint(0, 14)):
        x = rng.random()
        if x < .6:
            now += 1
            active += on
        elif x < .8 and on:
            t.paused.append(now)
            on = False
            log.append(('pause', now))
        elif not on:
            t.resumed.append(now)
            on = True
            log.append(('resume', now))
        run.check(t.get_task_active_time(now) == active, 'active:now', lambda: f'{t.get_task_active_time(now)} {active} at {now} {log}')
        k = rng.randint(0, 5)
        run.check(t.get_task_active_time(now + k) == active + k * on, 'active:later', lambda: f'{t.get_task_active_time(now + k)} at {now + k} {log}')
    run.hit('histories')
    if on:
        t.end = now
        for k in (now, now + 3):
            run.check(t.get_task_active_time(k) == active, 'active:ended', lambda: f'{t.get_task_active_time(k)} {active} at {k} {log}')
        run.check(t.get_task_active_time() == active, 'active:ended', lambda: f'{log}')
    run.case(tuple(log), len(log) > 2)


FIELDS = ['tasks_remaining', 'tasks_ongoing', 'tasks_complete', 'tasks_paused', 'tasks_progress', 'tasks_mode', 'resource_to_task', 'resource_availability', 'resource_used', 'resource_used_for_task', 't', 'tasks_details', '_current_conditions']


def rand_state(rng, ids):
    s = State(list(ids), set(rng.sample(ids, rng.randint(0, len(ids)))))
    s.t = rng.randint(0, 9)
    for f in FIELDS[1:4]:
        setattr(s, f, set(rng.sample(ids, rng.randint(0, len(ids)))))
    s.tasks_progress = {i: rng.random() for i in ids if rng.random() < .5}
    s.tasks_mode = {i: rng.randint(1, 3) for i in ids if rng.random() < .5}
    s.resource_to_task = {'r': rng.choice(ids)} if rng.random() < .5 else {}
    s.resource_availability = {'r': rng.randint(0, 3)}
    s.resource_used = {'r': rng.randint(0, 3)}
    s.resource_used_for_task = {i: {'r': rng.randint(0, 2)} for i in ids if rng.random() < .5}
    for i in ids:
        if rng.random() < .5:
            s.tasks_details[i].start = rng.randint(0, 5)
            s.tasks_details[i].paused = [rng.randint(0, 9)]
    s._current_conditions = set(rng.sample('abc', rng.randint(0, 3)))
    return s


def change(rng, s, f):
    v = getattr(s, f)
    if f == 't':
        s.t += 1
    elif isinstance(v, set):
        v.symmetric_difference_update({99})
    elif f == 'tasks_details':
        x = rng.choice(sorted(v))
        k = rng.choice(['start', 'end', 'mode', 'sampled_duration', 'paused', 'resumed', 'resources'])
        if k in ('paused', 'resumed'):
            getattr(v[x], k).append(77)
        elif k == 'resources':
            v[x].resources['u'] = ['w']
        else:
            setattr(v[x], k, 77)
    elif f == 'resource_used_for_task':
        v.setdefault(sorted(s.task_ids)[0], {})['q'] = 1
    else:
        v['new'] = 5


def states(run, rng):
    ids = rng.sample(range(20), rng.randint(1, 5))
    s = rand_state(rng, ids)
    c = s.copy()
    run.hit('states')
    run.check(s == c and c == s and hash(s) == hash(c), 'state:copy', lambda: f'{s} {c}')
    # the same content entered in another order
    o = s.copy()
    for f in FIELDS:
        v = getattr(o, f)
        if isinstance(v, dict):
            k = list(v.items())
            rng.shuffle(k)
            setattr(o, f, dict(k))
    run.check(s == o and hash(s) == hash(o), 'state:order', lambda: f'{s} {o}')
    for f in FIELDS:
        c = s.copy()
        run.check(getattr(c, f) == getattr(s, f) or f == 'tasks_details', f'state:copy-{f}', lambda: f'{getattr(c, f)} {getattr(s, f)}')
        h = hash(s)
        change(rng, c, f)
        run.check(hash(s) == h and s == o, f'state:copy-shares-{f}', lambda: f'{s}')
        run.check(s != c, f'state:equal-despite-{f}', lambda: f'{s} {c}')
    run.check(s != 3, 'state:equal-to-a-number')
    a = SchedulingAction(3, SchedulingActionEnum.START, 2, False, {'w'})
    run.check((a.task, a.action, a.mode, a.time_progress, a.resource_unit_names) == (3, SchedulingActionEnum.START, 2, False, {'w'}), 'action')
    run.case(str(s), len(ids) > 1)


GROUPS = [('durations', durations, 500, 8000), ('structure', structure, 400, 8000), ('graphs', graphs, 400, 8000), ('history', history, 600, 12000), ('states', states, 300, 6000)]

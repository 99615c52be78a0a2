"""C20 RCPSP model: permutations and modes decode to the serial schedule, and evaluation, satisfaction, encodings and derived models agree with it."""
import copy
import os
import tempfile
from fractions import Fraction

from vk import rcpspgen as G
from vk.rcpspgen import gen, build, sgs, sched_of, rand_modes, rand_perm, rm, valid
from vk.dostubs import quiet

import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.do_problem import BaseMethodAggregating, MethodAggregating, build_aggreg_function_and_params_objective, build_evaluate_function_aggregated, ParamsObjectiveFunction, ObjectiveHandling, ModeOptim
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_parser, rcpsp_utils, rcpsp_data_generator

RULE = 'random project scheduling problems (1-8 activities, single/multi mode, renewable/non-renewable/calendar resources, slack or tight horizons, zero durations) with random permutations, modes, schedules and edit histories; non-trivial = at least 3 activities'
REQUIRED = {'decoded': 2000, 'infeasible': 100, 'calendar': 200, 'multi': 300, 'zero': 200, 'edits': 1500, 'satisfy_true': 200, 'satisfy_false': 400, 'resumed': 300, 'ongoing': 200, 'parsed': 60, 'profiles': 200, 'workers': 150,
            'robust': 150, 'uncertain': 200, 'helpers': 100, 'v:renewable': 100, 'v:precedence': 50, 'v:nonrenewable': 20, 'reserves': 500}
ASSUMPTIONS = ['source and sink have no duration nor need and the sink follows every activity', 'the mean resource reserve is only specified for constant capacities and positive makespans', 'partial schedules of infeasible decodings are unspecified']


def sol_of(p, model, perm, modes):
    return rm.RCPSPSolution(problem=model, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))


def judge(run, p, model, sol, perm, modes, what):
    feas, want = sgs(p, perm, modes)
    with quiet():
        ev = model.evaluate(sol)
        sat = model.satisfy(sol)
    run.hit('decoded')
    if not feas:
        run.hit('infeasible')
        run.check(sol.rcpsp_schedule_feasible is False and not sat, what + ':infeasible-not-flagged', lambda: f'{p} {perm} {modes} {sol.rcpsp_schedule}')
        run.check(ev['makespan'] > p.end(), what + ':infeasible-makespan', lambda: f'{ev} {p} {perm} {modes}')
        run.check(ev['mean_resource_reserve'] == 0, what + ':infeasible-reserve', lambda: f'{ev}')
        return False
    got = sched_of(sol)
    run.check(got == want, what + ':schedule', lambda: f'got {got} want {want} {p} {perm} {modes}')
    run.check(valid(p, want, modes) is None, 'harness-oracle', lambda: f'{valid(p, want, modes)} {p}')
    run.check(sat is True and sol.rcpsp_schedule_feasible is not False, what + ':feasible-not-accepted', lambda: f'{p} {perm} {modes} {got}')
    run.check(ev['makespan'] == want[p.sink][1], what + ':makespan', lambda: f'{ev} {want}')
    reserve(run, p, want, modes, ev, what)
    return True


def reserve(run, p, sched, modes, ev, what):
    mk = sched[p.sink][1]
    if p.calendar or mk == 0 or any(v == 0 for v in p.res.values()):
        return
    tot = Fraction(0)
    for r in p.res:
        av = 0
        for t in range(mk):
            av += p.res[r] - sum(p.modes[j][G.mode_of(p, modes, j)][r] for j, (s, e) in sched.items() if s <= t and (t < e or r in p.nonren))
        tot += Fraction(av, mk * p.res[r])
    run.hit('reserves')
    run.check(abs(ev['mean_resource_reserve'] - float(tot / len(p.res))) < 1e-6, what + ':reserve', lambda: f"{ev['mean_resource_reserve']} want {float(tot / len(p.res))} {p} {sched}")


def topo_ok(p, perm0):
    """perm0 (0-based activities) respects precedence."""
    pos = {x + 2: i for i, x in enumerate(perm0)}
    return all(pos[i] < pos[j] for i, l in p.succ.items() for j in l if i in pos and j in pos)


def g_decode(run, rng):
    p = gen(rng, calendar=rng.random() < 0.3, overload=rng.random() < 0.2)
    with quiet():
        model = build(p)
    if p.calendar:
        run.hit('calendar')
    if p.multi:
        run.hit('multi')
    if any(m['duration'] == 0 for j in range(2, p.n + 2) for m in p.modes[j].values()):
        run.hit('zero')
    before = repr((model.mode_details, model.resources, model.successors))
    for _ in range(4):
        perm, modes = rand_perm(rng, p), rand_modes(rng, p)
        sol = sol_of(p, model, perm, modes)
        ok = judge(run, p, model, sol, perm, modes, 'decode')
        run.check(list(sol.rcpsp_permutation) == perm and list(sol.rcpsp_modes) == modes, 'decode-changes-encoding', lambda: f'{sol.rcpsp_permutation} {perm}')
        if ok:
            std = list(sol.standardised_permutation)
            sc = sched_of(sol)
            run.check(sorted(std) == list(range(p.n)), 'standardised-permutation', lambda: f'{std}')
            run.check(all(sc[a + 2][0] <= sc[b + 2][0] for a, b in zip(std, std[1:])), 'standardised-order', lambda: f'{std} {sc}')
            if all(p.modes[j][m]['duration'] > 0 for j, m in zip(range(2, p.n + 2), modes)):
                # decoding the order of the starts cannot delay anything
                again = sol_of(p, model, std, modes)
                run.check(sched_of(again)[p.sink][1] <= sc[p.sink][1], 'standardised-worse', lambda: f'{sched_of(again)} {sc} {p}')
                run.check(topo_ok(p, std), 'standardised-precedence', lambda: f'{std} {p}')
    if not p.multi and not p.calendar:
        # the single-mode constructor default
        perm = rand_perm(rng, p)
        sol = rm.RCPSPSolution(problem=model, rcpsp_permutation=list(perm))
        judge(run, p, model, sol, perm, [1] * p.n, 'default-modes')
    if p.multi and rng.random() < 0.5:
        # modes that do not exist are replaced by the first one
        perm, modes = rand_perm(rng, p), rand_modes(rng, p)
        bad = list(modes)
        for i in range(p.n):
            if rng.random() < 0.3:
                bad[i] = len(p.modes[i + 2]) + rng.randint(1, 2)
        fixed = [m if m in p.modes[i + 2] else 1 for i, m in enumerate(bad)]
        sol = sol_of(p, model, perm, bad)
        judge(run, p, model, sol, perm, fixed, 'clamped')
        run.check(list(sol.rcpsp_modes) == fixed, 'clamped-modes', lambda: f'{sol.rcpsp_modes} {fixed}')
    with quiet():
        d = model.get_dummy_solution()
    judge(run, p, model, d, list(range(p.n)), [1] * p.n, 'dummy')
    run.check(repr((model.mode_details, model.resources, model.successors)) == before, 'decoding-changes-the-problem', lambda: f'{p}')
    run.case((repr(p), perm), p.n >= 3)


def g_edit(run, rng):
    """Histories of edits, copies and problem changes: an evaluation is always that of the current encoding."""
    p = gen(rng, calendar=rng.random() < 0.2)
    q = gen(rng, n=p.n, multi=p.multi, nonren=bool(p.nonren), calendar=p.calendar)
    # the second problem has the same modes with other durations
    for j in p.modes:
        if set(p.modes[j]) != set(q.modes.get(j, ())) or set(p.res) != set(q.res):
            q = p
            break
    models = [(p, build(p)), (q, build(q))]
    pool = []
    perm, modes = rand_perm(rng, p), rand_modes(rng, p)
    pool.append([0, perm, modes, sol_of(p, models[0][1], perm, modes)])
    for _ in range(rng.randint(6, 14)):
        i = rng.randrange(len(pool))
        k, perm, modes, sol = pool[i]
        op = rng.choice(['perm', 'modes', 'copy', 'lazy', 'eval', 'problem', 'satisfy'])
        run.hit('edits')
        if op == 'perm':
            perm = rand_perm(rng, p)
            sol.rcpsp_permutation = list(perm)
            pool[i] = [k, perm, modes, sol]
        elif op == 'modes':
            modes = rand_modes(rng, p)
            sol.rcpsp_modes = list(modes)
            pool[i] = [k, perm, modes, sol]
        elif op == 'copy' and len(pool) < 5:
            pool.append([k, perm, modes, sol.copy()])
        elif op == 'lazy' and len(pool) < 5:
            pool.append([k, perm, modes, sol.lazy_copy()])
        elif op == 'problem':
            k = rng.randrange(2)
            sol.change_problem(models[k][1])
            pool[i] = [k, perm, modes, sol]
        elif op == 'eval':
            judge(run, models[k][0], models[k][1], sol, perm, modes, 'edit')
        else:
            feas, want = sgs(models[k][0], perm, modes)
            with quiet():
                models[k][1].evaluate(sol)
                run.check(bool(models[k][1].satisfy(sol)) == feas, 'edit:satisfy', lambda: f'{perm} {modes} {models[k][0]}')
    for k, perm, modes, sol in pool:
        judge(run, models[k][0], models[k][1], sol, perm, modes, 'edit')
        run.check(list(sol.rcpsp_permutation) == list(perm) and list(sol.rcpsp_modes) == list(modes), 'edit:aliasing', lambda: f'{perm} {modes} {sol.rcpsp_permutation} {sol.rcpsp_modes}')
    for a in pool:
        for b in pool:
            if a[0] != b[0]:
                continue        # solutions of different problems are not compared
            same = list(a[1]) == list(b[1]) and list(a[2]) == list(b[2])
            run.check((a[3] == b[3]) == same, 'equality', lambda: f'{a} {b}')
            if same:
                run.check(hash(a[3]) == hash(b[3]), 'hash', lambda: f'{a} {b}')
    # a copy does not share its schedule
    k, perm, modes, sol = pool[0]
    if sgs(models[k][0], perm, modes)[0]:
        c = sol.copy()
        c.rcpsp_permutation = rand_perm(rng, p)
        with quiet():
            models[k][1].evaluate(c)
        run.check(sched_of(sol) == sgs(models[k][0], perm, modes)[1], 'copy-shares-schedule', lambda: f'{sched_of(sol)}')
    # nor its lists: writing in the copy's leaves the original's as they were
    c = sol.copy()
    if len(perm) > 1:
        c.rcpsp_permutation[0], c.rcpsp_permutation[-1] = c.rcpsp_permutation[-1], c.rcpsp_permutation[0]
    if len(modes):
        c.rcpsp_modes[rng.randrange(len(modes))] += 7
    run.hit('copies_written')
    run.check(list(sol.rcpsp_permutation) == list(perm) and list(sol.rcpsp_modes) == list(modes), 'copy-shares-lists', lambda: f'{perm} {modes} {sol.rcpsp_permutation} {sol.rcpsp_modes}')
    run.case(repr(p), p.n >= 3)


def g_satisfy(run, rng):
    """Arbitrary complete schedules."""
    p = gen(rng, calendar=rng.random() < 0.3, overload=rng.random() < 0.2)
    model = build(p)
    for _ in range(8):
        perm, modes = rand_perm(rng, p), rand_modes(rng, p)
        feas, s = sgs(p, perm, modes)
        if not feas:
            # any schedule, built without looking at resources
            relaxed = copy.deepcopy(p)
            relaxed.calendar = False
            relaxed.res = {r: 10 ** 6 for r in p.res}
            relaxed.mult = 100
            _, s = sgs(relaxed, perm, modes)
        s = dict(s)
        kind = rng.choice(['none', 'shift', 'shift', 'shift', 'delay', 'pull', 'pull', 'overlap', 'exact'])
        if kind == 'exact' and p.succ:
            # start exactly at (or one before) the end of a predecessor
            i = rng.choice([i for i in p.succ if p.succ[i]])
            j = rng.choice(p.succ[i])
            t = max(0, s[i][1] - rng.randint(0, 1))
            s[j] = (t, t + s[j][1] - s[j][0])
        for j in sorted(s):
            if kind in ('shift', 'pull') and j not in (1, p.sink) and rng.random() < (0.4 if kind == 'shift' else 0.2):
                d = rng.randint(-3, 3) if kind == 'shift' else -rng.randint(1, 6)
                d = max(d, -s[j][0])
                s[j] = (s[j][0] + d, s[j][1] + d)
            if kind == 'overlap' and j not in (1, p.sink) and rng.random() < 0.6:
                t = rng.randint(0, 3)
                s[j] = (t, t + s[j][1] - s[j][0])
        if kind == 'delay':
            d = rng.randint(1, 3)
            s = {j: (a + d, b + d) if j != 1 else (a, b) for j, (a, b) in s.items()}
        end = max(e for e in (v[1] for j, v in s.items() if j != p.sink))
        if rng.random() < 0.8:
            s[p.sink] = (max(end, s[p.sink][0] if kind == 'delay' else 0),) * 2
        if s[p.sink][1] < end or (p.calendar and s[p.sink][1] > min(len(v) for v in p.res.values())):
            if p.calendar:
                continue
        sol = rm.RCPSPSolution(problem=model, rcpsp_schedule={j: {'start_time': a, 'end_time': b} for j, (a, b) in s.items()}, rcpsp_permutation=None if not p.multi or rng.random() < 0.5 else perm, rcpsp_modes=list(modes))
        why = valid(p, s, modes)
        with quiet():
            sat = bool(model.satisfy(sol))
        run.hit('satisfy_false' if why else 'satisfy_true')
        run.hit(f'v:{why}')
        run.check(sat == (why is None), f'satisfy:{why}', lambda: f'satisfy={sat} but {why}: {s} modes {modes} {p}')
        with quiet():
            mk = model.evaluate(sol)['makespan']
        run.check(mk == s[p.sink][1] and sched_of(sol) == s, 'given-schedule-is-kept', lambda: f'{mk} {s} {sched_of(sol)}')
        if sol.standardised_permutation is not None:
            std = list(sol.standardised_permutation)
            run.check(sorted(std) == list(range(p.n)), 'schedule-permutation', lambda: f'{std} {s}')
            starts = [s[x + 2][0] for x in std]
            run.check(starts == sorted(starts), 'schedule-permutation-order', lambda: f'{std} {s}')
    run.case((repr(p), repr(s)), p.n >= 3)


class _D:
    def __init__(self, s, e):
        self.start, self.end = s, e


def g_resume(run, rng):
    """Decoding from the middle of an execution keeps the past."""
    p = gen(rng, n=rng.randint(2, 8), tight=False)
    model = build(p)
    modes = rand_modes(rng, p)
    feas, s = sgs(p, rand_perm(rng, p), modes)
    run.require(feas)
    mk = s[p.sink][1]
    t = rng.randint(0, mk)
    done = {j: v for j, v in s.items() if v[1] <= t and v[0] < t or (v[1] <= t and j == 1)}
    ongoing = {j: v[0] for j, v in s.items() if j not in done and v[0] < t}
    if rng.random() < 0.5:
        # some started exactly now
        ongoing.update({j: v[0] for j, v in s.items() if j not in done and v[0] == t and v[1] > t and rng.random() < 0.5})
    done = {j: v for j, v in done.items() if all(i in done for i in p.preds()[j])}
    ongoing = {j: v for j, v in ongoing.items() if all(i in done for i in p.preds()[j]) and j != p.sink}
    perm = rand_perm(rng, p)
    sol = sol_of(p, model, perm, modes)
    given = dict(ongoing)
    if rng.random() < 0.5:
        given.update({j: v[0] for j, v in done.items()})
    with quiet():
        sol.generate_schedule_from_permutation_serial_sgs_2(current_t=t, completed_tasks={j: _D(*v) for j, v in done.items()}, scheduled_tasks_start_times=given)
    feas2, want = sgs(p, perm, modes, fixed=ongoing, not_before=t, done=done)
    run.hit('resumed')
    run.hit('ongoing', len(ongoing))
    if feas2:
        got = sched_of(sol)
        run.check(all(got.get(j) == v for j, v in done.items()), 'resume:past-changed', lambda: f'{got} {done}')
        run.check(all(got.get(j, (None,))[0] == v for j, v in ongoing.items()), 'resume:ongoing-moved', lambda: f'{got} {ongoing} t={t} {perm} {p}')
        run.check(all(v[0] >= t for j, v in got.items() if j not in done and j not in ongoing), 'resume:starts-in-the-past', lambda: f'{got} t={t}')
        run.check(got == want, 'resume:schedule', lambda: f'got {got} want {want} t={t} done={done} ongoing={ongoing} {perm} {p}')
        run.check(sol.rcpsp_schedule_feasible is True, 'resume:feasible-flag', lambda: f'{p}')
    else:
        run.check(sol.rcpsp_schedule_feasible is False, 'resume:infeasible-flag', lambda: f'{want} t={t} done={done} {p}')
    run.case((repr(p), t, perm), p.n >= 3)


def g_encoding(run, rng):
    """Registers, vectors, graphs and resource profiles."""
    p = gen(rng, tight=rng.random() < 0.1, calendar=rng.random() < 0.2)
    model = build(p)
    reg = model.get_attribute_register().dict_attribute_to_type
    run.eq(reg['rcpsp_permutation']['n'], p.n, 'register:n')
    run.eq(sorted(reg['rcpsp_permutation']['range']), list(range(p.n)), 'register:range')
    run.eq(list(reg['rcpsp_modes_arrity_fix']['arrities']), [len(p.modes[j]) for j in range(2, p.n + 2)], 'register:arities')
    run.eq(reg['rcpsp_modes']['arrity'], max(len(m) for m in p.modes.values()), 'register:arity')
    run.eq(bool(model.is_rcpsp_multimode()), p.multi, 'multimode')
    perm, modes = rand_perm(rng, p), rand_modes(rng, p)
    kind = type(model).__name__
    sol = sol_of(p, model, perm, modes if kind != 'SingleModeRCPSPModel' else [1] * p.n)
    if kind == 'MultiModeRCPSPModel':
        with quiet():
            model.set_fixed_attributes('rcpsp_modes', sol)
            a = model.evaluate_from_encoding(list(perm), 'rcpsp_permutation')
            model.set_fixed_attributes('rcpsp_permutation', sol)
            b = model.evaluate_from_encoding([m - 1 for m in modes], 'rcpsp_modes')
            c = model.copy()
            e = c.evaluate_from_encoding([m - 1 for m in modes], 'rcpsp_modes')
            w = model.evaluate(sol)
        run.check(repr(a) == repr(b) == repr(w) == repr(e), 'encoding', lambda: f'{a} {b} {w} {e} {p}')
    else:
        if p.multi and p.calendar:
            modes = [1] * p.n
        with quiet():
            a = model.evaluate_from_encoding(list(perm), 'rcpsp_permutation')
            sol = sol_of(p, model, perm, [1] * p.n)
            w = model.evaluate(sol)
        run.check(repr(a) == repr(w), 'encoding', lambda: f'{a} {w} {p}')
        modes = [1] * p.n
    with quiet():
        c = model.copy()
    run.check(type(c) is type(model) and c.resources == model.resources and c.mode_details == model.mode_details and c.successors == model.successors and c.horizon == model.horizon and c.horizon_multiplier == model.horizon_multiplier and c.n_jobs == model.n_jobs, 'copy-differs', lambda: f'{p}')
    r0 = rng.choice(sorted(c.resources))
    c.resources[r0] = 99
    c.resources['extra'] = 5
    c.mode_details[1][1]['duration'] = 77
    c.successors[1].append(1)
    run.check(model.resources == p.res and model.mode_details == p.modes and model.successors == p.succ, 'copy-shares-data', lambda: f'{model.resources} {p}')
    # aggregated objective functions
    with quiet():
        ev, evd, params = build_aggreg_function_and_params_objective(model)
        d = model.evaluate(sol)
        run.check(ev(sol) == -d['makespan'] == evd(d), 'objective', lambda: f'{ev(sol)} {d}')
        wts = [rng.randint(-3, 3), rng.randint(-3, 3)]
        if not p.calendar and d['mean_resource_reserve'] == d['mean_resource_reserve'] and abs(d['mean_resource_reserve']) < 1e9:
            names = ['makespan', 'mean_resource_reserve']
            if rng.random() < 0.5:
                names.reverse()
            ev, evd = build_evaluate_function_aggregated(model, ParamsObjectiveFunction(objective_handling=ObjectiveHandling.AGGREGATE, objectives=names, weights=wts, sense_function=ModeOptim.MAXIMIZATION))
            want = sum(w * d[k] for w, k in zip(wts, names))
            run.check(abs(ev(sol) - want) < 1e-9 and abs(evd(d) - want) < 1e-9, 'objective-aggregate', lambda: f'{ev(sol)} {want}')
            ev, evd = build_evaluate_function_aggregated(model, ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ, objectives=names, weights=wts, sense_function=ModeOptim.MAXIMIZATION))
            want = [w * d[k] for w, k in zip(wts, names)]
            run.check(np.allclose(ev(sol).vector_fitness, want) and np.allclose(evd(d).vector_fitness, want), 'objective-multi', lambda: f'{ev(sol)} {want}')
            m = model.evaluate_mobj(sol)
            run.check(np.allclose(m.vector_fitness, [-d['makespan'], d['mean_resource_reserve']]), 'objective-mobj', lambda: f'{m.vector_fitness} {d}')
    # precedence graph
    for g in (model.compute_graph(), rcpsp_utils.compute_graph_rcpsp(model)):
        run.check(sorted(g.nodes_name) == sorted(p.modes), 'graph-nodes', lambda: f'{g.nodes_name}')
        nx = g.graph_nx
        run.check(sorted(nx.edges()) == sorted((i, j) for i, l in p.succ.items() for j in l), 'graph-edges', lambda: f'{sorted(nx.edges())} {p.succ}')
        for n in p.modes:
            below = set()
            st = list(p.succ[n])
            while st:
                x = st.pop()
                if x not in below:
                    below.add(x)
                    st += p.succ[x]
            run.check(set(g.get_descendants_nodes(n) if hasattr(g, 'get_descendants_nodes') else g.descendants_map()[n]) == below, 'graph-descendants', lambda: f'{n} {below}') if hasattr(g, 'descendants_map') or hasattr(g, 'get_descendants_nodes') else None
            above = {i for i in p.modes if n != i and _reach(p.succ, i, n)}
            run.check(set(g.precedessors_nodes(n)) - {n} == above, 'graph-ancestors', lambda: f'{n} {g.precedessors_nodes(n)} {above}')
    feas, s = sgs(p, perm, modes)
    if feas and s[p.sink][1] > 0:
        mk = s[p.sink][1]
        with quiet():
            sol = sol_of(p, model, perm, modes)
            con, times = rcpsp_utils.compute_resource_consumption(model, sol, future_view=False)
            conf, _ = rcpsp_utils.compute_resource_consumption(model, sol)
            conm = model.compute_resource_consumption(sol)
        run.hit('profiles')
        for ir, r in enumerate(p.res):
            use = [sum(p.modes[j][G.mode_of(p, modes, j)][r] for j, (a, b) in s.items() if a <= t < b) for t in range(mk)]
            run.check(list(con[ir, :mk]) == use and list(conf[ir, 1:]) == use and list(conm[ir, 1:]) == use, 'consumption-profile', lambda: f'{r} {con} {conf} {use}')
        if not p.calendar:
            with quiet():
                w = rcpsp_utils.compute_schedule_per_resource_individual(model, sol, resource_types_to_consider=[r for r in p.res if r not in p.nonren])
            run.hit('workers')
            for r in p.res:
                if r in p.nonren:
                    continue
                A = w[r]['activity']
                run.check(A.shape[1] == p.res[r], 'workers-number', lambda: f'{A.shape} {r}')
                for j, (a, b) in s.items():
                    need = p.modes[j][G.mode_of(p, modes, j)][r]
                    if b > a:
                        who = [set(np.nonzero(A[t, :] == j)[0]) for t in range(a, b)]
                        run.check(all(x == who[0] for x in who) and len(who[0]) == need, 'workers-assignment', lambda: f'{j} {who} need {need} {A}')
                        run.check(int((A == j).sum()) == need * (b - a), 'workers-outside', lambda: f'{j} {A}')
                run.check(np.array_equal(w[r]['total_activity'], (A > 0).sum(axis=0)), 'workers-total', lambda: f'{w[r]["total_activity"]} {A}')
    run.case((repr(p), perm), p.n >= 3)


def _reach(succ, i, n):
    seen, st = set(), list(succ[i])
    while st:
        x = st.pop()
        if x == n:
            return True
        if x not in seen:
            seen.add(x)
            st += succ[x]
    return False


def write_psplib(rng, p):
    R = [r for r in p.res if r not in p.nonren]
    names = list(p.res)
    sp = lambda *a: '  '.join(str(x) for x in a)        # noqa: E731
    L = ['*' * 72, 'file with basedata            : x', 'initial value random generator: 1', '*' * 72, 'projects                      :  1', f'jobs (incl. supersource/sink ):  {p.n + 2}',
         f'horizon                       :  {p.horizon}', 'RESOURCES', f'  - renewable                 :  {len(R)}   R', f'  - nonrenewable              :  {len(p.nonren)}   N', '  - doubly constrained        :  0   D', '*' * 72,
         'PROJECT INFORMATION:', 'pronr.  #jobs rel.date duedate tardcost  MPM-Time', f'    1     {p.n}      0   1    0   1', '*' * 72, 'PRECEDENCE RELATIONS:', 'jobnr.    #modes  #successors   successors']
    for j in sorted(p.modes):
        L.append('   ' + sp(j, len(p.modes[j]), len(p.succ[j]), *p.succ[j]))
    L += ['*' * 72, 'REQUESTS/DURATIONS:', 'jobnr. mode duration  ' + '  '.join(f'{x[0]} {x[1:]}' for x in names), '-' * 72]
    for j in sorted(p.modes):
        for i, k in enumerate(sorted(p.modes[j])):
            m = p.modes[j][k]
            L.append(('  ' + str(j) if i == 0 else '   ') + '   ' + sp(k, m['duration'], *[m[r] for r in names]))
    L += ['*' * 72, 'RESOURCEAVAILABILITIES:', '  ' + '  '.join(f'{x[0]} {x[1:]}' for x in names), '   ' + sp(*[p.res[r] for r in names]), '*' * 72]
    return '\n'.join(L) + '\n'


def g_parse(run, rng):
    if rng.random() < 0.2:
        files = [f for f in rcpsp_parser.get_data_available() if f.endswith(('.sm', '.mm'))]
        f = rng.choice(sorted(files))
        with quiet():
            m = rcpsp_parser.parse_file(f)
        txt = open(f).read().splitlines()
        i = next(k for k, l in enumerate(txt) if l.startswith('jobs'))
        n = int(txt[i].split(':')[1])
        run.check(m.n_jobs == n - 2 and sorted(m.mode_details) == list(range(1, n + 1)) == sorted(m.successors), 'parse-file', lambda: f)
        run.check(all(all(1 <= x <= n for x in l) for l in m.successors.values()), 'parse-file-successors', lambda: f)
        with quiet():
            d = m.get_dummy_solution()
            sat = m.satisfy(d)
            q = G.P(dict(m.resources), list(m.non_renewable_resources), m.mode_details, m.successors, m.horizon, m.horizon_multiplier)
            feas, want = sgs(q, list(range(q.n)), [1] * q.n)
        run.check(bool(sat) == feas and (not feas or sched_of(d) == want), 'parse-file-dummy', lambda: f)
        run.hit('parsed')
        run.case(f)
        return
    p = gen(rng, calendar=False)
    p.mult = 30
    R = [r for r in p.res if r not in p.nonren]
    p.res = {r: p.res[r] for r in R + p.nonren}
    txt = write_psplib(rng, p)
    if rng.random() < 0.5:
        with quiet():
            m = rcpsp_parser.parse_psplib(txt)
    else:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'x.sm')
            with open(f, 'w') as h:
                h.write(txt)
            with quiet():
                m = rcpsp_parser.parse_file(f)
    run.hit('parsed')
    run.check(m.resources == p.res and list(m.resources) == list(p.res), 'parse:resources', lambda: f'{m.resources} {p}')
    run.check(sorted(m.non_renewable_resources) == sorted(p.nonren), 'parse:nonrenewable', lambda: f'{m.non_renewable_resources} {p}')
    run.check(m.mode_details == p.modes, 'parse:modes', lambda: f'{m.mode_details} {p}')
    run.check(m.successors == p.succ, 'parse:successors', lambda: f'{m.successors} {p}')
    run.check(m.horizon == p.horizon, 'parse:horizon', lambda: f'{m.horizon}')
    run.check(isinstance(m, rm.MultiModeRCPSPModel) == p.multi and isinstance(m, rm.SingleModeRCPSPModel) == (not p.multi), 'parse:class', lambda: f'{type(m)} {p}')
    run.case(repr(p), p.n >= 3)


def g_robust(run, rng):
    p = gen(rng, multi=rng.random() < 0.3, calendar=False, tight=False)
    ps = [p]
    for _ in range(rng.randint(1, 3)):
        q = copy.deepcopy(p)
        for j in range(2, p.n + 2):
            for m in q.modes[j].values():
                m['duration'] = max(0, m['duration'] + rng.randint(-2, 2))
        q.horizon = sum(max(m['duration'] for m in q.modes[j].values()) for j in q.modes) + 1
        ps.append(q)
    models = [build(q) for q in ps]
    base, fn = rng.choice([(BaseMethodAggregating.MEAN, lambda v: sum(v) / len(v)), (BaseMethodAggregating.MIN, min), (BaseMethodAggregating.MAX, max),
                           (BaseMethodAggregating.MEDIAN, lambda v: (sorted(v)[(len(v) - 1) // 2] + sorted(v)[len(v) // 2]) / 2),
                           (BaseMethodAggregating.PONDERATION, None), (BaseMethodAggregating.PERCENTILE, lambda v: float(np.percentile(v, 90)))])
    w = np.array([rng.randint(0, 3) for _ in ps])
    if fn is None:
        fn = lambda v: float(np.dot(v, w))          # noqa: E731
    agg = rm.Aggreg_RCPSPModel(models, MethodAggregating(base, ponderation=w))
    perm, modes = rand_perm(rng, p), rand_modes(rng, p)
    vals = [sgs(q, perm, modes) for q in ps]
    run.require(all(f for f, _ in vals))
    mk = [s[q.sink][1] for (f, s), q in zip(vals, ps)]
    sol = sol_of(p, models[0], perm, modes)
    before = sched_of(sol)
    with quiet():
        got = agg.evaluate(sol)
        got2 = agg.evaluate(agg.get_dummy_solution())
    run.hit('robust')
    run.check(abs(got['makespan'] - fn(mk)) < 1e-9, 'robust:evaluate', lambda: f'{got} {mk} {base} {ps}')
    run.check(sched_of(sol) == before and sol.problem is models[0], 'robust:changes-solution', lambda: f'{ps}')
    dv = [sgs(q, list(range(p.n)), [1] * p.n) for q in ps]
    if all(f for f, _ in dv):
        run.check(abs(got2['makespan'] - fn([s[p.sink][1] for _, s in dv])) < 1e-9, 'robust:dummy', lambda: f'{got2} {ps}')
    if not p.multi:
        with quiet():
            g = agg.evaluate_from_encoding(list(perm), 'rcpsp_permutation')
        run.check(abs(g['makespan'] - fn(mk)) < 1e-9, 'robust:encoding', lambda: f'{g} {mk}')
    with quiet():
        u = agg.get_unique_rcpsp_model()
    for j in p.modes:
        for k in p.modes[j]:
            for x in p.modes[j][k]:
                run.check(u.mode_details[j][k][x] == int(fn([q.modes[j][k][x] for q in ps])), 'robust:unique-model', lambda: f'{j} {k} {x}')
    run.check(all(m.mode_details == q.modes for m, q in zip(models, ps)), 'robust:changes-problems', lambda: f'{ps}')
    run.case((repr(p), str(base)), p.n >= 3)


def g_uncertain(run, rng):
    p = gen(rng, calendar=False, tight=False, n=rng.randint(1, 4))
    model = build(p)
    rd, rr = rng.randint(0, 3), rng.randint(0, 2)
    do_r, do_d = rng.choice([(True, True), (False, True), (True, False)])
    with quiet():
        laws = rm.create_poisson_laws(model, range_around_mean_resource=rr, range_around_mean_duration=rd, do_uncertain_resource=do_r, do_uncertain_duration=do_d)
    bounds = {}
    for j in range(2, p.n + 2):
        for k, m in p.modes[j].items():
            for x, v in m.items():
                if x == 'duration':
                    if not do_d:
                        continue
                    b = (max(1, v - rd), v, v + rd)
                elif x in p.nonren or not do_r:
                    continue
                else:
                    b = (max(0, v - rr), v, min(v + rr, p.res[x]))
                if b[0] <= b[2]:
                    bounds[j, k, x] = b
                run.check(tuple(laws[j][k][x]) == b, 'laws', lambda: f'{j} {k} {x} {laws[j][k][x]} {b}')
    run.require(all(tuple(laws[j][k][x])[0] <= tuple(laws[j][k][x])[1] <= tuple(laws[j][k][x])[2] for j in laws for k in laws[j] for x in laws[j][k]))
    uniform = rng.random() < 0.5
    um = rm.UncertainRCPSPModel(model, laws, uniform_law=uniform)
    B = rm.MethodBaseRobustification
    for base in (B.AVERAGE, B.WORST_CASE, B.BEST_CASE, B.PERCENTILE, B.SAMPLE, B.SAMPLE):
        q = rng.choice([10, 50, 90])
        m = um.create_rcpsp_model(rm.MethodRobustification(base, percentile=q))
        run.hit('uncertain')
        for j in p.modes:
            for k in p.modes[j]:
                for x in p.modes[j][k]:
                    v = m.mode_details[j][k][x]
                    if (j, k, x) not in bounds:
                        run.check(v == p.modes[j][k][x], 'uncertain:changed', lambda: f'{j} {k} {x} {v}')
                        continue
                    lo, mean, hi = bounds[j, k, x]
                    run.check(lo <= v <= hi or base == B.PERCENTILE and v == 1, 'uncertain:outside', lambda: f'{base} {v} {lo} {hi}')
                    if base == B.WORST_CASE:
                        run.check(v == hi, 'uncertain:worst', lambda: f'{v} {hi}')
                    if base == B.BEST_CASE:
                        run.check(v == lo, 'uncertain:best', lambda: f'{v} {lo}')
                    if base == B.AVERAGE and uniform:
                        run.check(v in (int((lo + hi) / 2), int((lo + hi) / 2 - 1e-9), int((lo + hi) / 2 + 1e-9)), 'uncertain:average', lambda: f'{v} {lo} {hi}')
                    if base == B.PERCENTILE and uniform:
                        n = hi - lo + 1
                        cum = Fraction(int(v) - lo + 1, n)
                        run.check(v == 1 or (cum >= Fraction(q, 100) - Fraction(1, 10 ** 6) and cum - Fraction(1, n) <= Fraction(q, 100) + Fraction(1, 10 ** 6)), 'uncertain:percentile', lambda: f'{v} {lo} {hi} {q}')
        run.check(model.mode_details == p.modes, 'uncertain:changes-base', lambda: f'{p}')
    run.case((repr(p), rd, rr), p.n >= 2)


def g_helper(run, rng):
    """Generated problems with helper tasks stay consistent and the correction of the helpers keeps schedules valid."""
    p = gen(rng, multi=False, nonren=False, calendar=False, tight=False, n=rng.randint(2, 6), zero=False)
    p.mult = 3
    model = build(p)
    na = rng.randint(1, p.n)
    mult, dur, assist = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 3)
    with quiet():
        h = rcpsp_data_generator.generate_rcpsp_with_helper_tasks_data(model, original_duration_multiplier=mult, n_assisted_activities=na, n_assistants=assist,
                                                                      probability_of_cross_helper_precedences=rng.choice([0, 0, 0.3]) if _ordered(p) else 0, fixed_helper_duration=dur, random_seed=rng.randint(0, 10 ** 6))
    run.check(model.resources == p.res and model.mode_details == p.modes and model.successors == p.succ and model.n_jobs == p.n, 'generator-changes-original', lambda: f'{model.resources} {p}')
    q = G.P(dict(h.resources), list(h.non_renewable_resources), copy.deepcopy(h.mode_details), copy.deepcopy(h.successors), h.horizon, 100)
    h.horizon_multiplier = 100
    run.check(h.n_jobs == p.n + 2 * na and sorted(h.mode_details) == list(range(1, q.sink + 1)), 'generator:activities', lambda: f'{sorted(h.mode_details)}')
    for j in range(2, p.n + 2):
        want = {k: dict(m, duration=m['duration'] * mult, **{[r for r in h.resources if r not in p.res][0]: 0}) for k, m in p.modes[j].items()}
        run.check(h.mode_details[j] == want, 'generator:details', lambda: f'{h.mode_details[j]} {want}')
    run.check(len(h.pre_helper_activities) == na == len(h.post_helper_activities), 'generator:helpers', lambda: f'{h.pre_helper_activities}')
    for a in h.pre_helper_activities:
        pre, post = h.pre_helper_activities[a][0], h.post_helper_activities[a][0]
        run.check(a in h.successors[pre] and post in h.successors[a] and h.mode_details[pre][1]['duration'] == dur, 'generator:links', lambda: f'{h.successors}')
    for i in q.modes:
        run.check(i == q.sink or _reach(q.succ, i, q.sink), 'generator:sink', lambda: f'{i} {q.succ}')
        for j in q.modes:
            if i in p.modes and j in p.modes and i != p.sink and j != p.sink:
                run.check(not _reach(p.succ, i, j) or _reach(q.succ, i, j), 'generator:precedence', lambda: f'{i} {j}')
    run.require(not any(_reach(q.succ, i, i) for i in q.modes))
    perm = list(range(q.n))
    rng.shuffle(perm)
    feas, base = sgs(q, perm, [1] * q.n)
    run.require(feas)
    with quiet():
        sol = rm.RCPSPSolution(problem=h, rcpsp_permutation=list(perm), rcpsp_modes=[1] * q.n)
        ev = h.evaluate(sol)
    s = sched_of(sol)
    run.hit('helpers')
    why = valid(q, s, [1] * q.n)
    run.check(why is None, f'helper-correction:{why}', lambda: f'{s} {base} {q}')
    run.check(ev['makespan'] == s[q.sink][1] == base[q.sink][1], 'helper-makespan', lambda: f'{ev} {base}')
    for j in s:
        if j in {x[0] for x in h.pre_helper_activities.values()}:
            run.check(s[j][0] >= base[j][0], 'helper-earlier', lambda: f'{j} {s} {base}')
        else:
            run.check(s[j] == base[j], 'helper-moves-others', lambda: f'{j} {s} {base}')
    gap = sum(s[a][0] - s[h.pre_helper_activities[a][0]][1] + s[h.post_helper_activities[a][0]][0] - s[a][1] for a in h.pre_helper_activities)
    run.check(ev['cumulated_helper_gap'] == gap, 'helper-gap', lambda: f'{ev} {gap}')
    run.case(repr(q))


def _ordered(p):
    return all(i < j for i, l in p.succ.items() for j in l)


GROUPS = [('decode', g_decode, 1800, 30000), ('edit', g_edit, 700, 12000), ('satisfy', g_satisfy, 700, 12000), ('resume', g_resume, 1500, 25000), ('encoding', g_encoding, 900, 12000), ('parse', g_parse, 250, 3000),
          ('robust', g_robust, 600, 9000), ('uncertain', g_uncertain, 120, 1500), ('helper', g_helper, 600, 10000)]

"""C29 multi-skill RCPSP: encodings decode to the serial schedule with the workers of highest priority, and evaluation, satisfaction, copies, encodings, files and derived models agree."""
import copy
import os
import tempfile
import time

from vk import dostubs, mipsub

dostubs.install()
mipsub.install(memory=True)
from vk.dostubs import quiet

with dostubs.empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill as M
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill_parser as PA
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.lns_post_process_rcpsp import PostProMSRCPSP, sgs_variant
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.ms_rcpsp_ga_solver import GA_MSRCPSP_Solver
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.solver_rcpsp_based import Solver_RCPSP_Based
    from skdecide.builders.discrete_optimization.rcpsp.rcpsp_solvers import PileSolverRCPSP_Calendar
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.cp_solvers import CP_MS_MRCPSP_MZN
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.lp_model import LP_Solver_MRSCPSP
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers import ms_rcpsp_cp_lns_solver as msln, calendar_solver_iterative as mscal
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill_solvers import solve as ms_solve, look_for_solver
    from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM
from skdecide.builders.discrete_optimization.generic_tools.do_problem import build_aggreg_function_and_params_objective, ModeOptim
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools.ea.ga_tools import ParametersAltGa
from skdecide.builders.discrete_optimization.generic_tools import cp_tools
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName

cp_tools.map_cp_solver_name[CPSolverName.CHUFFED] = 'gecode'        # Chuffed is absent

RULE = ('random multi-skill problems (1-7 tasks, 1-3 modes, 1-4 workers with several skills and calendars, renewable and non-renewable resources or none, one-worker-per-task rule on and off, zero durations, identifiers of workers '
        'starting at 0, 1 or spread) with random priorities, modes, schedules and edit histories; non-trivial = at least 3 tasks')
REQUIRED = {'decoded': 1500, 'feasible': 800, 'infeasible': 60, 'single': 200, 'calendar': 300, 'satisfy_true': 200, 'satisfy_false': 500, 'encodings': 300, 'copies': 400, 'edits': 400, 'files': 60, 'imopse': 60, 'representative': 150,
            'post': 150, 'ga': 10, 'based': 40, 'cp': 8, 'cp-partial': 8, 'cp:calendar': 10, 'lp': 2, 'lns': 25, 'lns:iterative': 25, 'lns:neighbourhood': 20, 'lns:cuts': 12, 'v:skill': 40, 'v:worker-busy': 10, 'v:worker-absent': 10, 'v:resource': 20, 'v:precedence': 30, 'v:duration': 30, 'v:single': 10, 'v:nonrenewable': 5, 'zero': 100, 'variant': 100}
ASSUMPTIONS = ['source and sink have no duration nor need and the sink follows every task', 'calendars reach at least to the horizon and the horizon multiplier is 1', 'a decoding that does not fit in the horizon reports a sink beyond it; its other fields are unspecified',
               'skill values are whole numbers']
INF = 10 ** 6


class P:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.n = len(self.modes) - 2
        self.sink = self.n + 2

    def __repr__(self):
        return 'P(' + ', '.join(f'{k}={v!r}' for k, v in sorted(self.__dict__.items())) + ')'


def gen(rng, n=None, single=None, resources=None, zero=True, slack=None, calendars=None, multi=None, nonren=None, ids=None, overload=False):
    n = n if n is not None else rng.randint(1, 7)
    single = rng.random() < 0.3 if single is None else single
    skills = [f'Q{i}' for i in range(rng.randint(1, 3))]
    resources = rng.random() < 0.6 if resources is None else resources
    R = [f'R{i}' for i in range(rng.randint(1, 2))] if resources else []
    N = ['N0'] if resources and (rng.random() < 0.5 if nonren is None else nonren) else []
    caps = {r: rng.randint(1, 4) for r in R}
    ne = rng.randint(1, 4)
    ids = ids or rng.choice([list(range(ne)), list(range(1, ne + 1)), list(range(1, ne + 1)), sorted(rng.sample(range(1, 20), ne))])
    ids = ids[:ne]
    emp = {}
    for i, e in enumerate(ids):
        own = [s for s in skills if rng.random() < 0.6] or [rng.choice(skills)]
        emp[e] = {s: rng.randint(1, 3) for s in own}
    # every skill is held by somebody; with the one-worker rule somebody can do everything
    if single:
        emp[rng.choice(ids)] = {s: 3 for s in skills}
    for s in skills:
        if all(s not in d for d in emp.values()):
            emp[rng.choice(ids)][s] = rng.randint(1, 3)
    tot = {s: sum(d.get(s, 0) for d in emp.values()) for s in skills}
    multi = rng.random() < 0.4 if multi is None else multi
    zeros = {**{r: 0 for r in R + N}, **{s: 0 for s in skills}}
    modes = {1: {1: dict(zeros, duration=0)}}
    for j in range(2, n + 2):
        modes[j] = {}
        for k in range(1, (rng.randint(1, 3) if multi else 1) + 1):
            m = dict(zeros, duration=0 if zero and rng.random() < 0.12 else rng.randint(1, 4))
            for r in R:
                m[r] = 0 if rng.random() < 0.4 else rng.randint(0, caps[r])
            for r in N:
                m[r] = rng.randint(0, 3)
            for s in skills:
                if rng.random() < 0.55:
                    m[s] = rng.randint(1, 3 if single else tot[s])
                elif rng.random() < 0.3:
                    del m[s]
            if overload and rng.random() < 0.1:
                m[rng.choice(skills)] = tot[rng.choice(skills)] + 3
            modes[j][k] = m
    modes[n + 2] = {1: dict(zeros, duration=0)}
    for r in N:
        lo = sum(min(m[r] for m in d.values()) for d in modes.values())
        hi = sum(max(m[r] for m in d.values()) for d in modes.values())
        caps[r] = max(0, rng.randint(max(0, lo - (1 if overload else 0)), max(lo, hi)))
    perm = list(range(2, n + 2))
    rng.shuffle(perm)
    succ = {j: [] for j in range(1, n + 3)}
    for a in range(n):
        for b in range(a + 1, n):
            if rng.random() < 0.25:
                succ[perm[a]].append(perm[b])
    haspred = {x for l in succ.values() for x in l}
    for j in range(2, n + 2):
        if j not in haspred or rng.random() < 0.1:
            succ[1].append(j)
        if not succ[j] or rng.random() < 0.1:
            succ[j].append(n + 2)
    calendars = rng.random() < 0.5 if calendars is None else calendars
    total = sum(max(m['duration'] for m in d.values()) for d in modes.values())
    slack = rng.choice([True, True, False]) if slack is None else slack
    horizon = total + 2 if not calendars else 2 * total + 12
    if not slack:
        horizon = max(1, rng.randint(total // 2, total + 4))
    L = horizon + rng.choice([0, 1, 1, 4])
    cal = {}
    for e in ids:
        if calendars:
            seq = []
            while len(seq) < L:
                seq += [rng.random() < 0.8] * rng.randint(1, 5)
            cal[e] = seq[:L]
        else:
            cal[e] = [True] * L
    res = {}
    for r in R + N:
        if r in N or not calendars or rng.random() < 0.4:
            res[r] = [caps[r]] * L
        else:
            seq = []
            while len(seq) < L:
                seq += [rng.choice([caps[r], caps[r], rng.randint(0, caps[r])])] * rng.randint(1, 4)
            res[r] = seq[:L]
    return P(skills=skills, res=res, R=R, N=N, emp=emp, cal=cal, ids=ids, modes=modes, succ=succ, horizon=horizon, single=single, multi=multi, calendars=calendars)


def build(p, cls=None):
    cls = cls or M.MS_RCPSPModel_Variant
    order = list(p.ids) if p.horizon % 2 else list(p.ids)[::-1]
    return cls(skills_set=set(p.skills), resources_set=set(p.res), non_renewable_resources=set(p.N), resources_availability=copy.deepcopy(p.res),
               employees={e: M.Employee({s: M.SkillDetail(v, 1.0, 1.0) for s, v in p.emp[e].items()}, list(p.cal[e]), salary=10.0 + e) for e in order},
               employees_availability=[sum(p.cal[e][t] for e in p.ids) for t in range(p.horizon)], mode_details=copy.deepcopy(p.modes), successors=copy.deepcopy(p.succ), horizon=p.horizon,
               sink_task=p.sink, source_task=1, one_unit_per_task_max=p.single)


def need(p, j, m):
    return {s: p.modes[j][m][s] for s in p.skills if p.modes[j][m].get(s, 0) > 0}


def ref(p, prio, modes, workers, horizon=None):
    """Independent serial schedule generation: (schedule, usage) or None when a task does not fit before the horizon."""
    horizon = p.horizon if horizon is None else horizon
    mode = {1: 1, p.sink: 1, **{j: modes[j - 2] for j in range(2, p.n + 2)}}
    for r in p.N:
        if sum(p.modes[j][mode[j]][r] for j in p.modes) > p.res[r][0]:
            return None
    preds = {j: {i for i in p.succ if j in p.succ[i]} for j in p.modes}
    sched, usage = {}, {}
    left = {(r, t): p.res[r][t] for r in p.R for t in range(len(p.res[r]))}
    free = {(e, t): p.cal[e][t] for e in p.ids for t in range(len(p.cal[e]))}
    todo = [1] + [x + 2 for x in prio] + [p.sink]
    while todo:
        j = next(x for x in todo if all(q in sched for q in preds[x]))
        todo.remove(j)
        m = p.modes[j][mode[j]]
        d = m['duration']
        nd = need(p, j, mode[j])
        t0 = max((sched[q][1] for q in preds[j]), default=0)
        while True:
            if t0 + d >= horizon:
                return None
            span = range(t0, t0 + d)
            if all(left[r, t] >= m[r] for r in p.R for t in span):
                here = [e for e in p.ids if all(free[e, t] for t in span)]
                if not nd:
                    team = []
                    break
                if p.single:
                    team = [e for e in workers[j - 2] if e in here and all(p.emp[e].get(s, 0) >= v for s, v in nd.items())][:1]
                    if team:
                        break
                elif all(sum(p.emp[e].get(s, 0) for e in here) >= v for s, v in nd.items()):
                    team, got = [], {s: 0 for s in nd}
                    for e in workers[j - 2]:
                        if e in here and any(s in p.emp[e] for s in nd):
                            team.append(e)
                            for s in nd:
                                got[s] += p.emp[e].get(s, 0)
                        if all(got[s] >= nd[s] for s in nd):
                            break
                    break
            t0 += 1
        sched[j] = (t0, t0 + d)
        for t in span:
            for r in p.R:
                left[r, t] -= m[r]
            for e in team:
                free[e, t] = False
        if team:
            usage[j] = {e: {s for s in nd if s in p.emp[e]} for e in team}
    return sched, usage


def violated(p, sched, modes, usage):
    """None when valid; otherwise the first rule broken.  modes: {task: mode}."""
    if set(sched) != set(p.modes):
        return 'incomplete'
    for j, (s, e) in sched.items():
        if e - s != p.modes[j][modes[j]]['duration']:
            return 'duration'
    for i, l in p.succ.items():
        for j in l:
            if sched[j][0] < sched[i][1]:
                return 'precedence'
    for j in p.modes:
        u = {e: k for e, k in usage.get(j, {}).items()}
        for s, v in need(p, j, modes[j]).items():
            if sum(p.emp[e].get(s, 0) for e, k in u.items() if s in k) < v:
                return 'skill'
        if p.single and len(u) > 1:
            return 'single'
        for e in u:
            for t in range(*sched[j]):
                if t >= len(p.cal[e]) or not p.cal[e][t]:
                    return 'worker-absent'
    for a in p.modes:
        for b in p.modes:
            if a < b and set(usage.get(a, {})) & set(usage.get(b, {})) and set(range(*sched[a])) & set(range(*sched[b])):
                return 'worker-busy'
    for r in p.R:
        for t in range(max(e for _, e in sched.values())):
            u = sum(p.modes[j][modes[j]][r] for j, (s, e) in sched.items() if s <= t < e)
            if u > (p.res[r][t] if t < len(p.res[r]) else 0):
                return 'resource'
    for r in p.N:
        if sum(p.modes[j][modes[j]][r] for j in p.modes) > p.res[r][0]:
            return 'nonrenewable'
    return None


def sched_of(sol):
    return {j: (v['start_time'], v['end_time']) for j, v in sol.schedule.items()}


def usage_of(sol):
    return {j: {e: set(k) for e, k in u.items() if k} for j, u in sol.employee_usage.items() if any(u.values())}


def rand_prio(rng, p):
    x = list(range(p.n))
    rng.shuffle(x)
    return x


def rand_modes(rng, p):
    return [rng.choice(sorted(p.modes[j])) for j in range(2, p.n + 2)]


def rand_workers(rng, p):
    return [rng.sample(p.ids, len(p.ids)) for _ in range(p.n)]


def enc(rng, p):
    return rand_prio(rng, p), rand_modes(rng, p), rand_workers(rng, p)


def sol_of(model, prio, modes, workers):
    return M.MS_RCPSPSolution_Variant(problem=model, priority_list_task=list(prio), modes_vector=list(modes), priority_worker_per_task=[list(w) for w in workers])


def full(p, modes):
    return {1: 1, p.sink: 1, **{j: modes[j - 2] for j in range(2, p.n + 2)}}


def judge(run, p, model, sol, prio, modes, workers, what):
    want = ref(p, prio, modes, workers)
    with quiet():
        ev = model.evaluate(sol)
        sat = model.satisfy(sol)
    run.hit('decoded')
    if want is None:
        run.hit('infeasible')
        run.check(not sat, what + ':infeasible-accepted', lambda: f'{p} {prio} {modes} {workers} {sol.schedule}')
        run.check(ev['makespan'] > p.horizon, what + ':infeasible-makespan', lambda: f'{ev} {p} {prio} {modes} {workers}')
        return False
    run.hit('feasible')
    sched, usage = want
    got = sched_of(sol)
    run.check(got == sched, what + ':schedule', lambda: f'got {got} want {sched} {p} {prio} {modes} {workers}')
    run.check(usage_of(sol) == usage, what + ':workers', lambda: f'got {sol.employee_usage} want {usage} {p} {prio} {modes} {workers}')
    run.check(dict(sol.modes) == full(p, modes), what + ':modes', lambda: f'got {sol.modes} want {modes} {p}')
    run.check(violated(p, sched, full(p, modes), usage) is None, 'harness-oracle', lambda: f'{p} {sched} {usage} {violated(p, sched, full(p, modes), usage)}')
    run.check(bool(sat), what + ':feasible-refused', lambda: f'{p} {prio} {modes} {workers} {got}')
    run.check(ev == {'makespan': sched[p.sink][1]}, what + ':makespan', lambda: f'{ev} {sched}')
    return True


def g_decode(run, rng):
    p = gen(rng, overload=rng.random() < 0.15)
    model = build(p)
    before = repr((model.mode_details, model.resources_availability, model.successors, [e.calendar_employee for e in model.employees.values()]))
    if p.single:
        run.hit('single')
    if p.calendars:
        run.hit('calendar')
    if any(m['duration'] == 0 for j in range(2, p.n + 2) for m in p.modes[j].values()):
        run.hit('zero')
    for _ in range(4):
        prio, modes, workers = enc(rng, p)
        sol = sol_of(model, prio, modes, workers)
        ok = judge(run, p, model, sol, prio, modes, workers, 'decode')
        run.check(sol.priority_list_task == prio and sol.modes_vector == modes and sol.priority_worker_per_task == workers, 'decode-changes-encoding', lambda: f'{prio} {sol.priority_list_task} {modes} {sol.modes_vector}')
        run.check(sol.modes_vector_from0 == [m - 1 for m in modes], 'modes-from-zero', lambda: f'{modes} {sol.modes_vector_from0}')
        if ok:
            with quiet():
                f = build_aggreg_function_and_params_objective(model)[0]
                run.eq(f(sol), -sched_of(sol)[p.sink][1], 'objective')
                mo = model.evaluate_mobj(sol)
            run.check(list(mo.vector_fitness) == [-sched_of(sol)[p.sink][1]], 'multi-objective', lambda: f'{mo.vector_fitness}')
            # back to an encoding
            run.hit('variant')
            v = M.schedule_solution_to_variant(M.MS_RCPSPSolution(model, dict(sol.modes), copy.deepcopy(sol.schedule), copy.deepcopy(sol.employee_usage)))
            run.check(sorted(v.priority_list_task) == list(range(p.n)) and v.modes_vector == modes and all(sorted(w) == sorted(p.ids) for w in v.priority_worker_per_task), 'variant-encoding', lambda: f'{v.__dict__}')
            run.check(all(sched_of(sol)[a + 2][0] <= sched_of(sol)[b + 2][0] for a, b in zip(v.priority_list_task, v.priority_list_task[1:])), 'variant-order', lambda: f'{v.priority_list_task} {sol.schedule}')
            run.check(all(set(w[:len(sol.employee_usage.get(j + 2, {}))]) == set(sol.employee_usage.get(j + 2, {})) for j, w in enumerate(v.priority_worker_per_task)), 'variant-workers', lambda: f'{v.priority_worker_per_task} {sol.employee_usage}')
            judge(run, p, model, v, v.priority_list_task, v.modes_vector, v.priority_worker_per_task, 'variant')
    if p.multi:
        prio, modes, workers = enc(rng, p)
        bad = [len(p.modes[j]) + rng.randint(1, 2) if rng.random() < 0.4 else modes[j - 2] for j in range(2, p.n + 2)]
        sol = sol_of(model, prio, bad, workers)
        judge(run, p, model, sol, prio, [b if b in p.modes[j + 2] else 1 for j, b in enumerate(bad)], workers, 'clamped')
    with quiet():
        d = model.get_dummy_solution()
    judge(run, p, model, d, list(range(p.n)), [1] * p.n, [list(model.employees)] * p.n, 'dummy')
    run.check(repr((model.mode_details, model.resources_availability, model.successors, [e.calendar_employee for e in model.employees.values()])) == before, 'decoding-changes-the-problem', lambda: f'{p}')
    run.case((repr(p), prio), p.n >= 3)


def g_satisfy(run, rng):
    p = gen(rng, slack=True)
    model = build(p, rng.choice([M.MS_RCPSPModel, M.MS_RCPSPModel_Variant]))
    for _ in range(8):
        prio, modes, workers = enc(rng, p)
        want = ref(p, prio, modes, workers)
        if want is None:
            q = copy.copy(p)
            q.N, q.R, q.horizon, q.cal = [], [], INF, {e: [True] * 200 for e in p.ids}
            want = ref(q, prio, modes, workers)
            if want is None:
                continue
        s, u = dict(want[0]), copy.deepcopy(want[1])
        md = full(p, modes)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            kind = rng.choice(['shift', 'pull', 'exact', 'drop-worker', 'drop-task', 'swap-worker', 'add-worker', 'drop-skill', 'mode', 'stretch', 'all-late', 'missing'])
            j = rng.randint(2, p.n + 1)
            if kind == 'shift':
                k = rng.randint(1, 4)
                s[j] = (s[j][0] + k, s[j][1] + k)
            elif kind == 'pull':
                k = rng.randint(0, s[j][0])
                s[j] = (s[j][0] - k, s[j][1] - k)
            elif kind == 'exact':
                i = rng.choice([i for i in p.succ if p.succ[i]])
                j = rng.choice(p.succ[i])
                t = max(0, s[i][1] - rng.randint(0, 1))
                s[j] = (t, t + s[j][1] - s[j][0])
            elif kind == 'drop-worker' and u.get(j):
                del u[j][rng.choice(list(u[j]))]
            elif kind == 'drop-task':
                u.pop(j, None)
            elif kind == 'swap-worker' and u.get(j):
                x = rng.choice(list(u[j]))
                y = rng.choice(p.ids)
                k = u[j].pop(x)
                u[j][y] = {q for q in p.emp[y] if q in need(p, j, md[j])} or k
            elif kind == 'add-worker' and need(p, j, md[j]):
                y = rng.choice(p.ids)
                k = {q for q in p.emp[y] if q in need(p, j, md[j])}
                if k:
                    u.setdefault(j, {})[y] = k
            elif kind == 'drop-skill' and u.get(j):
                x = rng.choice(list(u[j]))
                if len(u[j][x]) > 1:
                    u[j][x].remove(rng.choice(sorted(u[j][x])))
            elif kind == 'mode':
                md[j] = rng.choice(sorted(p.modes[j]))
                if rng.random() < 0.7:
                    s[j] = (s[j][0], s[j][0] + p.modes[j][md[j]]['duration'])
            elif kind == 'stretch':
                s[j] = (s[j][0], max(s[j][0], s[j][1] + rng.choice([-1, 1])))
            elif kind == 'all-late':
                k = rng.randint(1, p.horizon)
                s = {x: (a + k, b + k) for x, (a, b) in s.items() if x != 1} | {1: s[1]}
            elif kind == 'missing' and rng.random() < 0.3:
                s.pop(j)
                break
        if len(s) == p.n + 2 and rng.random() < 0.8:
            # the sink follows
            t = max(e for x, (_, e) in s.items() if x != p.sink)
            s[p.sink] = (t, t)
        why = violated(p, s, md, u)
        run.hit('satisfy_true' if why is None else 'satisfy_false')
        run.hit(f'v:{why}')
        usage = copy.deepcopy(u)
        if rng.random() < 0.5:
            for j in p.modes:
                usage.setdefault(j, {})
        sol = M.MS_RCPSPSolution(model, dict(md), {j: {'start_time': a, 'end_time': b} for j, (a, b) in s.items()}, usage)
        before = repr(sol.__dict__)
        with quiet():
            got = model.satisfy(sol)
        run.check(bool(got) == (why is None), f'satisfy:{why}', lambda: f'got {got} {p} {s} {md} {u}')
        if len(s) == p.n + 2:
            with quiet():
                run.eq(model.evaluate(sol)['makespan'], s[p.sink][1], 'makespan-of-schedule')
        run.check(repr(sol.__dict__) == before, 'satisfy-changes-the-solution')
        c = sol.copy()
        run.hit('copies')
        with quiet():
            run.check(bool(model.satisfy(c)) == (why is None) and sched_of(c) == s and usage_of(c) == usage_of(sol) and c.modes == md, 'copy', lambda: f'{c.__dict__} {sol.__dict__}')
        for x in c.schedule.values():
            x['start_time'] += 1
        c.modes[2] = 99
        for x in c.employee_usage.values():
            x.clear()
        run.check(repr(sol.__dict__) == before, 'copy-shares-state', lambda: f'{sol.__dict__}')
    run.case(repr(p), p.n >= 3)


def g_encodings(run, rng):
    """Fixed attributes, integer encodings, copies and edits."""
    p = gen(rng, slack=rng.random() < 0.8)
    model = build(p)
    prio, modes, workers = enc(rng, p)
    base = sol_of(model, prio, modes, workers)
    ne = len(p.ids)
    with quiet():
        reg = model.get_attribute_register().dict_attribute_to_type
        for k in rng.sample(sorted(reg), len(reg)):
            model.set_fixed_attributes(k, base)
    for _ in range(3):
        run.hit('encodings')
        kind = rng.choice(['priority_list_task', 'modes_vector', 'modes_vector_from0', 'priority_worker_per_task'])
        cur = [prio, modes, workers]
        if kind == 'priority_list_task':
            vec = cur[0] = rand_prio(rng, p)
        elif kind == 'modes_vector':
            vec = cur[1] = rand_modes(rng, p)
        elif kind == 'modes_vector_from0':
            cur[1] = rand_modes(rng, p)
            vec = [m - 1 for m in cur[1]]
        else:
            vec = rng.sample(range(p.n * ne), p.n * ne)
            cur[2] = []
            for i in range(p.n):
                part = vec[i * ne:(i + 1) * ne]
                # the k-th entry is the worker whose identifier has the rank of the k-th value
                cur[2].append([sorted(p.ids)[sorted(part).index(x)] for x in part])
        want = ref(p, *cur)
        with quiet():
            ev = model.evaluate_from_encoding(list(vec), kind)
            sol = M.MS_RCPSPSolution_Variant(problem=model, **{kind: list(vec)})
        if want is None:
            run.check(ev['makespan'] > p.horizon, 'encoding-infeasible', lambda: f'{kind} {vec} {ev} {p}')
        else:
            run.check(ev == {'makespan': want[0][p.sink][1]}, f'encoding:{kind}', lambda: f'{vec} {ev} want {want[0]} {p} {cur}')
        judge(run, p, model, sol, *cur, 'built:' + kind)
        if rng.random() < 0.5:
            with quiet():
                names = [k for k in reg if reg[k]['name'] == kind]
                model.set_fixed_attributes(rng.choice(names), sol)
            prio, modes, workers = cur
    # copies and edits
    pool = [[prio, modes, workers, sol_of(model, prio, modes, workers)]]
    for _ in range(rng.randint(3, 7)):
        run.hit('edits')
        a, b, c, s = rng.choice(pool)
        t = s.copy()
        run.check(type(t) is type(s) and t.problem is s.problem, 'copy-type', lambda: f'{type(t)}')
        k = rng.randrange(4)
        if k == 0:
            a = rand_prio(rng, p)
            t.priority_list_task = list(a)
        elif k == 1:
            b = rand_modes(rng, p)
            t.modes_vector = list(b)
        elif k == 2:
            c = rand_workers(rng, p)
            t.priority_worker_per_task = [list(w) for w in c]
        pool.append([a, b, c, t])
    for a, b, c, s in rng.sample(pool, len(pool)):
        judge(run, p, model, s, a, b, c, 'edited')
        run.check(s.priority_list_task == a and s.modes_vector == b and s.priority_worker_per_task == c, 'edit-aliasing', lambda: f'{s.__dict__}')
    # derived models decode alike
    for name, mk in (('copy', model.copy), ('variant', model.to_variant_model), ('base-copy-variant', lambda: build(p, M.MS_RCPSPModel).copy().to_variant_model())):
        with quiet():
            other = mk()
        a, b, c = enc(rng, p)
        run.hit('copies')
        judge(run, p, other, sol_of(other, a, b, c), a, b, c, 'model-' + name)
        run.check((other.source_task, other.sink_task, other.one_unit_per_task_max) == (1, p.sink, p.single), 'model-attributes:' + name, lambda: f'{other.__dict__}')
    cp = model.copy()
    run.check(type(cp) is type(model), 'model-copy-type')
    e = rng.choice(p.ids)
    x = model.employees[e].copy()
    run.check(x.salary == 10.0 + e and x.calendar_employee == p.cal[e] and {s: d.skill_value for s, d in x.dict_skill.items()} == p.emp[e], 'employee-copy', lambda: f'{x.__dict__}')
    x.calendar_employee[0] = not x.calendar_employee[0]
    for d in x.dict_skill.values():
        d.skill_value += 5
    run.check(model.employees[e].calendar_employee == p.cal[e] and {s: d.skill_value for s, d in model.employees[e].dict_skill.items()} == p.emp[e], 'employee-copy-shares-state')
    g = model.compute_graph()
    run.check(set(g.graph_nx.nodes()) == set(p.modes) and set(g.graph_nx.edges()) == {(i, j) for i, l in p.succ.items() for j in l}, 'graph', lambda: f'{p}')
    run.case((repr(p), prio), p.n >= 3)


def g_derived(run, rng):
    """The representative single-skill model is a relaxation; shifting left keeps validity; solving through it stays consistent."""
    p = gen(rng, slack=True)
    model = build(p)
    with quiet():
        rep = model.build_multimode_rcpsp_calendar_representative()
    L = min([len(v) for v in p.res.values()] + ([p.horizon] if not p.res else []))
    for s in p.skills:
        want = [sum(p.emp[e].get(s, 0) for e in p.ids if t < len(p.cal[e]) and p.cal[e][t]) for t in range(L)]
        run.check(list(rep.resources[s])[:L] == want, 'representative-skill-capacity', lambda: f'{s} {rep.resources[s]} want {want} {p}')
    run.check({r: list(rep.resources[r]) for r in p.res} == p.res and set(rep.non_renewable_resources) == set(p.N) and rep.successors == p.succ, 'representative-data', lambda: f'{p}')
    run.check(all(rep.mode_details[j][m][k] == p.modes[j][m].get(k, 0) for j in p.modes for m in p.modes[j] for k in ['duration'] + list(p.res) + p.skills), 'representative-modes', lambda: f'{p}')
    sols = []
    for _ in range(4):
        a, b, c = enc(rng, p)
        want = ref(p, a, b, c)
        if want is None:
            continue
        run.hit('representative')
        s, u = want
        rs = RM.RCPSPSolution(problem=rep, rcpsp_permutation=list(a), rcpsp_modes=list(b), rcpsp_schedule={j: {'start_time': x, 'end_time': y} for j, (x, y) in s.items()}, rcpsp_schedule_feasible=True)
        with quiet():
            run.check(rep.satisfy(rs), 'representative-refuses', lambda: f'{p} {s}')
        # delay some tasks to give the left shift something to do
        s2 = dict(s)
        for j in sorted(s2, key=lambda x: -s2[x][0]):
            if j not in (1, p.sink) and rng.random() < 0.5:
                k = rng.randint(1, 3)
                t = dict(s2)
                t[j] = (s2[j][0] + k, s2[j][1] + k)
                m = max(e for x, (_, e) in t.items() if x != p.sink)
                t[p.sink] = (m, m)
                if m < p.horizon and violated(p, t, full(p, b), u) is None:
                    s2 = t
        sols.append((s2, u, b, M.MS_RCPSPSolution(model, full(p, b), {j: {'start_time': x, 'end_time': y} for j, (x, y) in s2.items()}, copy.deepcopy(u))))
    if sols:
        with quiet():
            pp = PostProMSRCPSP(model, None)
        f = pp.aggreg_from_sol
        for s2, u, b, sol in sols:
            before = repr(sol.__dict__)
            with quiet():
                new = sgs_variant(sol, model, {n: model.compute_graph().get_predecessors(n) for n in p.modes})
            got = sched_of(new)
            run.hit('post')
            why = violated(p, got, dict(new.modes), usage_of(new))
            run.check(why is None, f'left-shift-invalid:{why}', lambda: f'{p} {s2} {got} {u}')
            run.check(all(got[j][0] <= s2[j][0] for j in s2), 'left-shift-delays', lambda: f'{p} {s2} {got}')
            run.check(repr(sol.__dict__) == before, 'left-shift-changes-its-input')
        with quiet():
            store = ResultStorage([(x[3], f(x[3])) for x in sols], mode_optim=ModeOptim.MAXIMIZATION)
            best = max(f(x[3]) for x in sols)
            k = len(store.list_solution_fits)
            out = pp.build_other_solution(store)
            run.check(len(out.list_solution_fits) > k, 'post-adds-nothing')
            for x, fit in out.list_solution_fits:
                run.check(violated(p, sched_of(x), dict(x.modes), usage_of(x)) is None and fit == -sched_of(x)[p.sink][1], 'post-solution', lambda: f'{p} {x.schedule} {fit}')
            run.check(out.get_best_solution_fit()[1] >= best, 'post-worse')
    run.case(repr(p), p.n >= 3)


def g_solve(run, rng):
    """Solvers return solutions whose reported schedule, workers and fitness are those of their encoding."""
    ga = rng.random() < 0.25
    p = gen(rng, n=rng.randint(2, 5), slack=True, zero=False, nonren=None if ga else rng.random() < 0.3, calendars=None if ga else False)
    model = build(p)
    if ga:
        run.hit('ga')
        par = ParametersAltGa.default_msrcpsp()
        par.max_evals = 150
        par.sub_evals = [50, 50, 50]
        with quiet():
            out = GA_MSRCPSP_Solver(model).solve(parameters_ga=par)
    else:
        run.hit('based')
        with quiet():
            out = Solver_RCPSP_Based(model, method=PileSolverRCPSP_Calendar).solve()
    for s, fit in out.list_solution_fits:
        run.check(sorted(s.priority_list_task) == list(range(p.n)) and all(sorted(w) == sorted(p.ids) for w in s.priority_worker_per_task) and len(s.modes_vector) == p.n, 'solver-encoding', lambda: f'{s.__dict__} {p}')
        fixed = [m if m in p.modes[j + 2] else 1 for j, m in enumerate(s.modes_vector)]
        want = ref(p, s.priority_list_task, fixed, s.priority_worker_per_task)
        judge(run, p, model, s, s.priority_list_task, fixed, s.priority_worker_per_task, 'solver')
        if want is not None:
            run.check(fit == -want[0][p.sink][1], 'solver-fitness', lambda: f'{fit} {want}')
    run.case(repr(p), p.n >= 3)


def g_exact(run, rng):
    """The constraint and linear models only return valid schedules, no worse than what the serial scheme finds, and follow partial solutions."""
    kind = rng.choice(['cp', 'cp', 'cp-partial', 'cp-partial', 'lp'])
    p = gen(rng, n=rng.randint(2, 4), slack=True, zero=False, calendars=kind != 'lp' and rng.random() < 0.5)
    model = build(p, rng.choice([M.MS_RCPSPModel, M.MS_RCPSPModel_Variant]))
    best, ws = None, []
    for _ in range(12):
        a, b, c = enc(rng, p)
        w = ref(p, a, b, c)
        if w is not None:
            ws.append((w, b))
            best = min(w[0][p.sink][1], INF if best is None else best)
    run.require(ws)
    ps = None
    if kind == 'lp':
        # one worker contributes at most one skill to a task in the linear model
        p.single = False
        run.require(all(len(need(p, j, m)) <= 1 for j in p.modes for m in p.modes[j]))
        model = build(p)
        with quiet():
            par = ParametersMilp.default()
            par.TimeLimit = 100
            out = ms_solve(LP_Solver_MRSCPSP, model, parameters_milp=par)
    else:
        args = {}
        if kind == 'cp-partial':
            (s, _), md = rng.choice(ws)
            md = full(p, md)
            some = rng.sample(range(2, p.n + 2), rng.randint(1, p.n))
            ps = RM.PartialSolution(task_mode={j: md[j] for j in some} if rng.random() < 0.7 else None, start_times={j: s[j][0] for j in rng.sample(some, rng.randint(1, len(some)))} if rng.random() < 0.5 else None,
                                    partial_permutation=sorted(some, key=lambda j: s[j][0]) if rng.random() < 0.4 else None)
            if rng.random() < 0.4:
                x, y = rng.choice(some), rng.randint(2, p.n + 1)
                if s[y][0] >= s[x][0]:
                    ps.start_after_nunit = [(x, y, s[y][0] - s[x][0])]
            pairs = [(x, y) for x in range(2, p.n + 2) for y in range(2, p.n + 2) if x != y]
            if rng.random() < 0.4:
                ps.start_together = [(x, y) for x, y in pairs if s[x][0] == s[y][0]][:2]
                ps.start_at_end = [(x, y) for x, y in pairs if s[y][0] == s[x][1]][:2]
            if rng.random() < 0.4:
                ps.start_at_end_plus_offset = [(x, y, s[y][0] - s[x][1]) for x, y in pairs if s[y][0] > s[x][1]][:2]
            args['partial_solution'] = ps
            # the partial solution comes from this schedule
            best = s[p.sink][1]
        t0 = time.time()
        with quiet():
            solver = CP_MS_MRCPSP_MZN(model, one_ressource_per_task=p.single)
            solver.init_model(exact_skills_need=False, add_calendar_constraint_unit=p.calendars or rng.random() < 0.5, **args)
            par = cp_tools.ParametersCP.default()
            par.TimeLimit = 100
            out = solver.solve(parameters_cp=par)
    run.require(kind == 'lp' or time.time() - t0 < 90)
    run.hit(kind)
    run.hit('cp:calendar', int(p.calendars))
    run.check(len(out.list_solution_fits) > 0, kind + ':no-solution', lambda: f'{p} {ps and ps.__dict__}')
    low = min((sched_of(x)[p.sink][1] for x, _ in out.list_solution_fits), default=0)
    run.check(low <= best, kind + ':worse-than-serial', lambda: f'{low} {best} {p} {ps and ps.__dict__}')
    for x, fit in out.list_solution_fits:
        got = sched_of(x)
        why = violated(p, got, dict(x.modes), usage_of(x))
        run.check(why is None, f'{kind}:invalid:{why}', lambda: f'{p} {x.__dict__}')
        run.check(fit == -got[p.sink][1], kind + ':fitness', lambda: f'{fit} {got}')
        if ps is not None:
            run.check(all(x.modes[j] == m for j, m in (ps.task_mode or {}).items()), 'partial:modes', lambda: f'{x.modes} {ps.__dict__} {p}')
            run.check(all(got[j][0] == t for j, t in (ps.start_times or {}).items()), 'partial:starts', lambda: f'{got} {ps.__dict__} {p}')
            run.check(all(got[i][0] <= got[j][0] for i, j in zip(ps.partial_permutation or [], (ps.partial_permutation or [])[1:])), 'partial:order', lambda: f'{got} {ps.__dict__} {p}')
            run.check(all(got[j][0] >= got[i][0] + k for i, j, k in ps.start_after_nunit or []), 'partial:after', lambda: f'{got} {ps.__dict__} {p}')
            run.check(all(got[i][0] == got[j][0] for i, j in ps.start_together or []), 'partial:together', lambda: f'{got} {ps.__dict__} {p}')
            run.check(all(got[i][1] == got[j][0] for i, j in ps.start_at_end or []), 'partial:at-end', lambda: f'{got} {ps.__dict__} {p}')
            run.check(all(got[j][0] >= got[i][1] + k for i, j, k in ps.start_at_end_plus_offset or []), 'partial:offset', lambda: f'{got} {ps.__dict__} {p}')
    run.case(repr(p), p.n >= 3)


def params_cp(seconds=40):
    par = cp_tools.ParametersCP.default()
    par.TimeLimit = par.TimeLimit_iter0 = seconds
    return par


def described(model):
    return (copy.deepcopy(model.mode_details), copy.deepcopy(model.resources_availability), {e: list(x.calendar_employee) for e, x in model.employees.items()}, copy.deepcopy(model.successors), model.horizon)


def g_lns(run, rng):
    """Large neighbourhood search and the iterative calendar solver return valid schedules, never worse than the ones they start from."""
    it = rng.random() < 0.5
    p = gen(rng, n=rng.randint(2, 4), slack=True, zero=False, nonren=False, calendars=it, **({'single': False} if it else {}))
    if it:      # the greedy start needs calendars in which everything fits in the end
        more = sum(max(m['duration'] for m in d.values()) for d in p.modes.values()) + 3
        p.cal = {e: x[:p.horizon] + [True] * (more + 1) for e, x in p.cal.items()}
        p.res = {r: x[:p.horizon] + [max(x)] * (more + 1) for r, x in p.res.items()}
        p.horizon += more
    model = build(p, rng.choice([M.MS_RCPSPModel, M.MS_RCPSPModel_Variant]))
    snap = described(model)
    option = rng.choice(list(msln.OptionNeighbor))
    skip = rng.random() < 0.4
    t0 = time.time()
    with quiet():
        if it:
            solver = mscal.SolverWithCalendarIterative(model, option_neighbor=option)
        else:
            solver = msln.LNS_CP_MS_RCPSP_SOLVER(model, option_neighbor=option, exact_skills_need=False, add_calendar_constraint_unit=False, one_ressource_per_task=p.single)
        start = solver.initial_solution_provider.get_starting_solution()
        try:
            out = solver.solve(parameters_cp=params_cp(), nb_iteration_lns=rng.randint(1, 3), skip_first_iteration=skip)
        except Exception:
            run.require(time.time() - t0 < 30)
            raise
    what = 'iterative' if it else 'lns'
    run.require(time.time() - t0 < 30)      # a search cut by its time limit shows nothing
    run.hit('lns:iterative' if it else 'lns')
    run.check(described(model) == snap, what + ':model-changed', lambda: f'{p}')
    run.check(out is not None and len(out.list_solution_fits) > 0, what + ':no-solution', lambda: f'{p}')
    if out is None or not out.list_solution_fits:
        return
    judged = [(x, violated(p, sched_of(x), dict(x.modes), usage_of(x))) for x, _ in out.list_solution_fits]
    # the iterative solver may find no schedule at all: it then says so of what it returns
    lost = it and all(why is not None and getattr(x, 'satisfy', None) is False for x, why in judged)
    run.hit('lns:lost', int(lost))
    for (x, why), (_, fit) in zip(judged, out.list_solution_fits):
        run.check(lost or fit == -sched_of(x)[p.sink][1], what + ':fitness', lambda: f'{fit} {sched_of(x)} {p}')
        run.check(lost or why is None, f'{what}:invalid:{why}', lambda: f'{p} {x.__dict__}')
    best, fit = out.get_best_solution_fit()
    run.check(fit == max(f for _, f in out.list_solution_fits), what + ':best', lambda: f'{p}')
    if not skip:
        first = [f for x, f in start.list_solution_fits if violated(p, sched_of(x), dict(x.modes), usage_of(x)) is None]
        run.check(not first or not lost and fit >= max(first), what + ':lost-the-start', lambda: f'{fit} {first} {p}')
    run.case(repr(p), p.n >= 3)


def pinned(child, sched):
    for j, (s, e) in sorted(sched.items()):
        child.add_string(f'constraint start[{j}] = {s};\n')


def g_neighbourhood(run, rng):
    """A neighbourhood of a schedule contains it, keeps the dates within the deltas and the workers it fixes, and never ends later; the cuts of the calendar handler keep every schedule that respects the calendars."""
    if rng.random() < 0.5:
        p = gen(rng, n=rng.randint(2, 4), slack=True, zero=False, nonren=False, calendars=False)
        p.horizon *= 7
        p.modes = {j: {k: dict(m, duration=7 * m['duration']) for k, m in d.items()} for j, d in p.modes.items()}
        p.cal = {e: [True] * (p.horizon + 1) for e in p.cal}
        p.res = {r: [x[0]] * (p.horizon + 1) for r, x in p.res.items()}
        model = build(p)
        prio, md, workers = enc(rng, p)
        base = sol_of(model, prio, md, workers)
        want = ref(p, prio, md, workers)
        run.require(want is not None)
        sched, usage = want
        lo, hi = rng.randint(0, 9), rng.randint(0, 9)
        sol = M.MS_RCPSPSolution(problem=model, modes=full(p, md), schedule={j: {'start_time': s, 'end_time': e} for j, (s, e) in sched.items()}, employee_usage={j: {e: set(k) for e, k in u.items()} for j, u in usage.items()})
        handler = msln.ConstraintHandlerStartTimeInterval_CP(problem=model, fraction_to_fix=1.0, minus_delta=lo, plus_delta=hi, fraction_task_to_fix_employee=1.0)
        with quiet():
            solver = CP_MS_MRCPSP_MZN(model, one_ressource_per_task=p.single)
            solver.init_model(exact_skills_need=False, add_calendar_constraint_unit=False, output_type=True)
            store = ResultStorage(list_solution_fits=[(sol, -sched[p.sink][1])], mode_optim=ModeOptim.MAXIMIZATION)
            with solver.instance.branch() as child:
                handler.adding_constraint_from_results_store(cp_solver=solver, child_instance=child, result_storage=store)
                out = solver.retrieve_solutions(child.solve(intermediate_solutions=True), parameters_cp=params_cp())
        run.hit('lns:neighbourhood')
        run.check(len(out.list_solution_fits) > 0, 'neighbourhood:empty', lambda: f'{sched} {usage} {p}')
        end = sched[p.sink][1]
        # tasks that end in the last 20 dates are let free
        fixed = [j for j, (s, e) in sched.items() if e < end - 20]
        for x, _ in out.list_solution_fits:
            got = sched_of(x)
            run.check(got[p.sink][0] <= sched[p.sink][0], 'neighbourhood:later', lambda: f'{got} {sched} {p}')
            run.check(all(sched[j][0] - lo <= got[j][0] <= sched[j][0] + hi for j in fixed), 'neighbourhood:dates', lambda: f'{got} {sched} {lo} {hi} {p}')
            run.check(all(set(usage_of(x).get(j, {})) <= set(usage.get(j, {})) for j in p.modes), 'neighbourhood:workers', lambda: f'{usage_of(x)} {usage} {p}')
            why = violated(p, got, dict(x.modes), usage_of(x))
            run.check(why is None, f'neighbourhood:invalid:{why}', lambda: f'{p} {got}')
        run.hit('lns:fixed', len(fixed))
    else:
        p = gen(rng, n=rng.randint(2, 4), slack=True, zero=False, nonren=False, calendars=True, single=False, multi=False)
        model = build(p, M.MS_RCPSPModel)
        prio, md, workers = enc(rng, p)
        want = ref(p, prio, md, workers)
        run.require(want is not None)
        with quiet():
            solver = mscal.SolverWithCalendarIterative(model)
            relaxed = solver.problem_no_calendar
            rp = copy.deepcopy(p)
            rp.cal = {e: [max(x)] * len(x) for e, x in p.cal.items()}
            rp.res = {r: [max(x)] * len(x) for r, x in p.res.items()}
        run.check({r: list(v) for r, v in relaxed.resources_availability.items()} == rp.res and {e: list(x.calendar_employee) for e, x in relaxed.employees.items()} == rp.cal, 'cuts:relaxation', lambda: f'{relaxed.resources_availability} {rp.res}')
        got = ref(rp, prio, md, workers)
        run.require(got is not None)
        sched, usage = got
        run.require(violated(p, sched, full(p, md), usage) is not None)
        sol = M.MS_RCPSPSolution(problem=model, modes=full(p, md), schedule={j: {'start_time': s, 'end_time': e} for j, (s, e) in sched.items()}, employee_usage={j: {e: set(k) for e, k in u.items()} for j, u in usage.items()})
        store = ResultStorage(list_solution_fits=[(sol, -sched[p.sink][1])], mode_optim=ModeOptim.MAXIMIZATION)
        seed = rng.getrandbits(30)
        import random
        state = random.getstate()
        with quiet():
            for mine, ok in ((want[0], True), (sched, None)):
                with solver.cp_solver.instance.branch() as child:
                    random.seed(seed)
                    solver.constraint_handler.adding_constraint_from_results_store(cp_solver=solver.cp_solver, child_instance=child, result_storage=store)
                    pinned(child, mine)
                    status = child.solve().status
                if ok:
                    run.hit('lns:cuts')
                    run.check(status.has_solution(), 'cuts:valid-schedule-excluded', lambda: f'{mine} {sched} {p}')
                elif not status.has_solution():
                    run.hit('lns:cut')
        random.setstate(state)
    run.case(repr(p), p.n >= 3)


def imopse(rng):
    """A problem file in the iMOPSE format and what it means."""
    ns, ne, n = rng.randint(1, 4), rng.randint(1, 5), rng.randint(1, 8)
    skills = [f'Q{i}' for i in range(ns)]
    emp = {}
    for e in range(1, ne + 1):
        emp[e] = {s: rng.randint(0, 3) for s in rng.sample(skills, rng.randint(1, ns))}
    emp[rng.randint(1, ne)] = {s: 3 for s in skills}
    sal = {e: rng.randint(10, 900) / 10 for e in emp}
    base = rng.choice([1, 1, 0, 5])
    tasks = {}
    for i in range(n):
        t = base + i
        sk = {s: rng.randint(0, 3) for s in rng.sample(skills, 1 if rng.random() < 0.7 else rng.randint(1, ns))}
        # predecessors may also be tasks listed later
        tasks[t] = [rng.randint(1, 6), sk, []]
    order = list(tasks)
    rng.shuffle(order)
    for a in range(n):
        for b in range(a):
            if rng.random() < 0.25:
                tasks[order[a]][2].append(order[b])
    lines = ['=' * 60, 'File name: x.def', '=' * 60, 'General characteristics:', f'Tasks: {n}', f'Resources: {ne}', f'Precedence relations: {sum(len(t[2]) for t in tasks.values())}', f'Number of skill types: {ns}', '=' * 60,
             'ResourceID     Salary      Skills']
    for e in emp:
        lines.append(f'{e}\t{sal[e]}\t ' + ' \t'.join(f'{s}: {v}' for s, v in emp[e].items()))
    lines += ['=' * 60, 'TaskID         Duration        Skill           Predecessor IDs']
    for t in tasks:
        d, sk, pr = tasks[t]
        lines.append(f'{t}\t {d} \t' + ' \t'.join(f'{s}: {v}' for s, v in sk.items()) + '\t' + ' '.join(map(str, pr)))
    lines += ['=' * 60, '']
    return '\n'.join(lines), emp, sal, tasks, skills


def g_files(run, rng):
    text, emp, sal, tasks, skills = imopse(rng)
    run.hit('imopse')
    horizon = rng.choice([None, 400, 120])
    d = tempfile.mkdtemp(prefix='vk29')
    try:
        f = os.path.join(d, 'x.def')
        open(f, 'w').write(text)
        with quiet():
            model, names = PA.parse_file(f, max_horizon=horizon)
        n = len(tasks)
        want = {i + 2: t for i, t in enumerate(sorted(tasks))}
        new = {t: j for j, t in want.items()}
        run.check(dict(names) == want, 'imopse-names', lambda: f'{names} {want}')
        used = {s for e in emp.values() for s in e} | {s for t in tasks.values() for s in t[1]}
        run.check(set(model.skills_set) == used and model.horizon == (horizon or 300) and model.source_task == 1 and model.sink_task == n + 2 and model.one_unit_per_task_max and not model.resources_set, 'imopse-header', lambda: f'{model.__dict__}')
        run.check({e: ({s: x.skill_value for s, x in v.dict_skill.items()}, v.salary, len(v.calendar_employee), all(v.calendar_employee)) for e, v in model.employees.items()}
                  == {e: ({s: v + 1 for s, v in emp[e].items()}, sal[e], horizon or 300, True) for e in emp}, 'imopse-workers', lambda: f'{text}')
        for t, (dur, sk, pr) in tasks.items():
            m = model.mode_details[new[t]]
            run.check(set(m) == {1} and m[1]['duration'] == dur and {s: v for s, v in m[1].items() if s != 'duration' and v} == {s: v + 1 for s, v in sk.items()}, 'imopse-task', lambda: f'{t} {m} {text}')
        for j in (1, n + 2):
            run.check(not any(model.mode_details[j][1].values()), 'imopse-dummies')
        edges = {(new[q], new[t]) for t in tasks for q in tasks[t][2]}
        got = {(i, j) for i in model.successors for j in model.successors[i]}
        run.check({(i, j) for i, j in got if i != 1 and j != n + 2} == edges, 'imopse-precedence', lambda: f'{got} {edges} {text}')
        run.check({j for i, j in got if i == 1} >= set(new.values()) and {i for i, j in got if j == n + 2} >= set(new.values()), 'imopse-dummy-precedence', lambda: f'{got}')
        # solve, write, read again
        v = model.to_variant_model()
        prio = rng.sample(range(n), n)
        workers = [rng.sample(sorted(emp), len(emp)) for _ in range(n)]
        sol = sol_of(v, prio, [1] * n, workers)
        total = sum(t[0] for t in tasks.values())
        with quiet():
            sat = model.satisfy(sol)
        run.check(bool(sat) and sched_of(sol)[n + 2][1] <= total, 'imopse-decode', lambda: f'{sol.schedule} {text}')
        run.check(all(len(sol.employee_usage[new[t]]) == 1 for t in tasks), 'imopse-one-worker', lambda: f'{sol.employee_usage}')
        g = os.path.join(d, 'x.sol')
        with quiet():
            PA.write_solution(sol, names, g)
            sched, assign = PA.parse_results(open(g).read())
        run.hit('files')
        run.check(sched == {t: sol.schedule[new[t]]['start_time'] for t in tasks}, 'file-schedule', lambda: f'{sched} {sol.schedule} {open(g).read()}')
        run.check(assign == {t: next(iter(sol.employee_usage[new[t]])) for t in tasks}, 'file-workers', lambda: f'{assign} {sol.employee_usage}')
        with quiet():
            back = PA.recompute_solution(model, names, sched, assign)
            run.check(model.satisfy(back) and sched_of(back) == sched_of(sol), 'file-recomputed', lambda: f'{back.schedule} {sol.schedule}')
            run.eq(model.evaluate(back), model.evaluate(sol), 'file-makespan')
        run.check(usage_of(back) == usage_of(sol), 'file-usage', lambda: f'{usage_of(back)} {usage_of(sol)}')
        run.check(PA.get_results_directory(d) == [g], 'results-directory')
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
    run.case(text, n >= 3)


GROUPS = [('decode', g_decode, 800, 12000), ('satisfy', g_satisfy, 400, 8000), ('encodings', g_encodings, 300, 5000), ('derived', g_derived, 250, 4000), ('solve', g_solve, 100, 1200), ('exact', g_exact, 60, 800), ('lns', g_lns, 80, 600, 60000000), ('neighbourhood', g_neighbourhood, 90, 800), ('files', g_files, 120, 2500)]

"""C23 Project scheduling solvers return feasible schedules, exact ones return optimal schedules."""
import atexit
import os
import shutil
import tempfile
import warnings

from vk import rcpspgen as G, mipsub
from vk.dostubs import quiet, install, empty_data_dirs

install()
mipsub.install()
warnings.filterwarnings('ignore')
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as rm, rcpsp_solvers as RS
    from skdecide.builders.discrete_optimization.rcpsp.solver import cp_solvers, rcpsp_pile, rcpsp_lp_solver, cpm, rcpsp_lp_lns_solver as lplns, rcpsp_cp_lns_solver as cplns, calendar_solver_iterative as csi, ls_solver, rcpsp_ga_solver
    from skdecide.builders.discrete_optimization.generic_tools import cp_tools
    from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP, CPSolverName
    from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
    from skdecide.builders.discrete_optimization.generic_tools.lns_mip import LNS_MILP
    from skdecide.builders.discrete_optimization.generic_tools.lns_cp import LNS_CP
    from skdecide.builders.discrete_optimization.generic_tools.ea.ga_tools import ParametersGa, ParametersAltGa
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, ModeOptim
    from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage

RULE = 'random projects of 1 to 6 activities with 1 to 3 modes, renewable and non-renewable resources, with and without calendars, random priorities, partial solutions drawn from a random schedule, start solutions and parameters; non-trivial = the project has at least two activities'
REQUIRED = {'cpm': 300, 'cpm:multi': 60, 'cpm:sgs': 300, 'cpm:loop': 100, 'pile': 300, 'pile:multi': 40, 'pile:calendar': 100, 'executor': 150, 'cp': 120, 'cp:multi': 40, 'cp:calendar': 30, 'cp:partial': 60, 'cp:infeasible': 5, 'modes': 30,
            'lp': 200, 'lp:calendar': 30, 'lp:partial': 60, 'lp:start': 100, 'lns-lp': 40, 'lns-lp:neighbourhood': 40, 'lns-cp': 12, 'iterative': 12, 'ga': 20, 'ls': 10, 'dispatch': 30}
ASSUMPTIONS = ['MiniZinc models are solved by Gecode instead of the absent Chuffed, mixed integer models by HiGHS instead of the CBC binary that crashes here; include "globals.mzn" of the single-mode model is narrowed to cumulative.mzn because the installed Gecode library is older than MiniZinc',
               'no activity needs more than the capacity of a resource', 'calendars end with full capacity and are long enough for every schedule']

cp_tools.map_cp_solver_name[CPSolverName.CHUFFED] = 'gecode'
_tmp = None


def single_file():
    """The single-mode model with its include narrowed (see ASSUMPTIONS), written next to copies of the files it may include."""
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vkmzn')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
        src = cp_solvers.files_mzn['single']
        for f in os.listdir(os.path.dirname(src)):
            shutil.copy(os.path.join(os.path.dirname(src), f), _tmp)
        dst = os.path.join(_tmp, os.path.basename(src))
        text = open(src).read().replace('include "globals.mzn"', 'include "cumulative.mzn"')
        open(dst, 'w').write(text)
        cp_solvers.files_mzn['single'] = dst


single_file()


def no_empty_needs(p):
    """Activities of no duration need nothing: the installed Gecode charges them in its cumulative constraint, unlike MiniZinc's definition of it."""
    for ms in p.modes.values():
        for x in ms.values():
            if x['duration'] == 0:
                for r in p.res:
                    if r not in p.nonren:
                        x[r] = 0
    with quiet():
        return G.build(p)


def total(p):
    return sum(max(m['duration'] for m in p.modes[j].values()) for j in p.modes)


def proj(rng, kind=None, nmax=5, max_dur=4, extra=0, **kw):
    kind = kind or rng.choice(['single', 'multi', 'calendar', 'mcalendar'])
    p = G.gen(rng, n=rng.randint(1, nmax), multi=kind in ('multi', 'mcalendar'), calendar='calendar' in kind, tight=False, max_dur=max_dur, nonren=None if kind in ('multi', 'mcalendar') else False, **kw)
    if p.calendar:
        for r in p.res:
            p.res[r] = list(p.res[r]) + [max(p.res[r] + ([] if r in p.nonren else [x[r] for j in p.modes.values() for x in j.values()]))] * (total(p) + len(p.modes) + 3)
        p.mult = 1
        n = min(len(v) for v in p.res.values())
        p.horizon = n - 1
    else:
        p.horizon, p.mult = total(p) + rng.randint(0, 3) + extra * len(p.modes), 1
        p.horizon = max(1, p.horizon)
    with quiet():
        m = G.build(p)
    return p, m


def feas_modes(p):
    """Some mode assignment respects the non-renewable resources."""
    import itertools
    ids = list(range(2, p.n + 2))
    return [ms for ms in itertools.product(*[sorted(p.modes[j]) for j in ids])
            if all(sum(p.modes[j][m][r] for j, m in zip(ids, ms)) <= p.cap(r, 0) for r in p.nonren)
            and all(p.modes[j][m][r] <= max_cap(p, r) for j, m in zip(ids, ms) for r in p.res)]


def max_cap(p, r):
    return max(p.res[r]) if p.calendar else p.res[r]


def snapshot(p, m):
    return repr((m.resources, m.mode_details, m.successors, m.horizon))


def same(run, p, m, snap, mech):
    run.check(snapshot(p, m) == snap, mech + ':problem-modified', lambda: f'{snap} -> {snapshot(p, m)}')


def checked(run, p, m, sol, mech, modes=None, info=''):
    """The solution is a complete feasible schedule that the problem evaluates to its makespan; returns the makespan."""
    s = G.sched_of(sol)
    md = [int(x) for x in sol.rcpsp_modes] if modes is None else modes
    bad = G.valid(p, s, md)
    if not run.check(bad is None, f'{mech}:invalid:{bad}', lambda: f'{s} modes {md} {p} {info}'):
        return None
    return s[p.sink][1]


def storage(run, p, m, rs, mech, all_valid=True):
    """Every stored solution is feasible and stored with its own fitness, and the best one is the best; returns the best makespan."""
    if rs is None or not rs.list_solution_fits:
        return None
    mks = []
    for s, f in rs.list_solution_fits:
        mk = checked(run, p, m, s, mech)
        if mk is None:
            return 'bad'
        run.check(f == -mk, mech + ':fitness', lambda: f'{f} makespan {mk}')
        mks.append(mk)
    b, f = rs.get_best_solution_fit()
    mk = checked(run, p, m, b, mech)
    run.check(mk == min(mks) and f == -mk, mech + ':best', lambda: f'best {mk} fit {f} of {mks}')
    if rs.best_solution is not None:
        mk2 = checked(run, p, m, rs.best_solution, mech)
        run.check(mk2 == min(mks), mech + ':best-attribute', lambda: f'{mk2} of {mks}')
    return mk


# ------------------------------------------------------------------------------------------- oracle with extra constraints

def pref(p, ps):
    """Extra constraints as predicates over partial start/end maps (None = not decidable yet)."""
    def ok(st, md):
        for t, v in ps.get('start_times', {}).items():
            if t in st and st[t] != v:
                return False
        for t, v in ps.get('task_mode', {}).items():
            if t in md and md[t] != v:
                return False
        for l in [ps.get('partial_permutation', [])] + ps.get('list_partial_order', []):
            for a, b in zip(l[:-1], l[1:]):
                if a in st and b in st and st[a] > st[b]:
                    return False

        def end(t):
            return st[t] + p.modes[t][md[t]]['duration']
        for a, b in ps.get('start_together', []):
            if a in st and b in st and st[a] != st[b]:
                return False
        for a, b in ps.get('start_at_end', []):
            if a in st and b in st and st[b] != end(a):
                return False
        for a, b, d in ps.get('start_after_nunit', []):
            if a in st and b in st and st[b] < st[a] + d:
                return False
        for a, b, d in ps.get('start_at_end_plus_offset', []):
            if a in st and b in st and st[b] < end(a) + d:
                return False
        return True
    return ok


def exact(p, ps, ub):
    """Minimal makespan under the extra constraints with every date <= ub (exhaustive search over dates), None if infeasible."""
    if not feas_modes(p):
        return None
    ok = pref(p, ps)
    preds = p.preds()
    order, left = [], set(p.modes)
    while left:
        j = min(x for x in left if not preds[x] & left)
        order.append(j)
        left.remove(j)
    best = [None]

    def rec(k, st, md, use, spent):
        if k == len(order):
            best[0] = max(best[0], st[p.sink]) if False else st[p.sink]
            return
        j = order[k]
        lo = max([0] + [st[i] + p.modes[i][md[i]]['duration'] for i in preds[j]])
        for m, d in p.modes[j].items():
            sp = dict(spent)
            for r in p.nonren:
                sp[r] = sp.get(r, 0) + d[r]
            if any(sp[r] > p.cap(r, 0) for r in p.nonren):
                continue
            md[j] = m
            for t in range(lo, ub - d['duration'] + 1):
                if best[0] is not None and t + d['duration'] >= best[0]:
                    break
                st[j] = t
                if ok(st, md) and all(use.get((r, u), 0) + d[r] <= p.cap(r, u) for r in p.res if r not in p.nonren for u in range(t, t + d['duration'])):
                    nu = dict(use)
                    for r in p.res:
                        if r not in p.nonren:
                            for u in range(t, t + d['duration']):
                                nu[r, u] = nu.get((r, u), 0) + d[r]
                    rec(k + 1, st, md, nu, sp)
                del st[j]
            md.pop(j, None)
    rec(0, {}, {}, {}, {})
    return best[0]


def some_schedule(rng, p):
    ms = feas_modes(p)
    if not ms:
        return None
    md = list(rng.choice(ms))
    ok, s = G.sgs(p, G.rand_perm(rng, p), md)
    return (md, s) if ok else None


def partial(rng, p, md, s, kinds):
    """Random constraints that the schedule s satisfies."""
    ids = sorted(p.modes)
    ps = {}
    for k in rng.sample(kinds, rng.randint(1, min(2, len(kinds)))):
        if k == 'start_times':
            ps[k] = {t: s[t][0] for t in rng.sample(ids, rng.randint(1, min(2, len(ids))))}
        elif k == 'task_mode':
            ts = [t for t in ids if t not in (1, p.sink)]
            ps[k] = {t: md[t - 2] for t in rng.sample(ts, rng.randint(1, len(ts)))}
        elif k in ('partial_permutation', 'list_partial_order'):
            l = sorted(rng.sample(ids, rng.randint(2, len(ids))), key=lambda t: (s[t][0], rng.random()))
            if k == 'partial_permutation':
                ps[k] = l
            else:
                l2 = sorted(rng.sample(ids, 2), key=lambda t: s[t][0])
                ps[k] = [l, l2]
        else:
            prs = [(a, b) for a in ids for b in ids if a != b]
            rng.shuffle(prs)
            for a, b in prs:
                if k == 'start_together' and s[a][0] == s[b][0]:
                    ps[k] = [(a, b)]
                elif k == 'start_at_end' and s[b][0] == s[a][1]:
                    ps[k] = [(a, b)]
                elif k == 'start_after_nunit' and s[b][0] >= s[a][0]:
                    ps[k] = [(a, b, rng.randint(0, s[b][0] - s[a][0]))]
                elif k == 'start_at_end_plus_offset' and s[b][0] >= s[a][1]:
                    ps[k] = [(a, b, rng.randint(0, s[b][0] - s[a][1]))]
                if k in ps:
                    break
    return ps


ALLK = ['start_times', 'task_mode', 'partial_permutation', 'list_partial_order', 'start_together', 'start_at_end', 'start_after_nunit', 'start_at_end_plus_offset']


# ------------------------------------------------------------------------------------------- critical path

def g_cpm(run, rng):
    kind = rng.choice(['single', 'single', 'calendar', 'multi'])
    p, m = proj(rng, kind, nmax=8, extra=rng.choice([0, 1]))
    multi = kind == 'multi'
    dur = {j: min(x['duration'] for x in p.modes[j].values()) for j in p.modes}
    preds = p.preds()
    esd, order, left = {}, [], set(p.modes)
    while left:
        for j in sorted(left):
            if not preds[j] & left:
                esd[j] = max([0] + [esd[i] + dur[i] for i in preds[j]])
                order.append(j)
                left.remove(j)
                break
    mk = esd[p.sink] + dur[p.sink]
    lfd = {}
    for j in reversed(order):
        lfd[j] = min([mk] + [lfd[k] - dur[k] for k in p.succ[j]])
    snap = snapshot(p, m)
    with quiet():
        c = cpm.CPM(m)
        path = c.run_classic_cpm()
    run.hit('cpm')
    run.hit('cpm:multi', int(multi))
    for j in p.modes:
        o = c.map_node[j]
        run.eq((o._ESD, o._EFD, o._LSD, o._LFD), (esd[j], esd[j] + dur[j], lfd[j] - dur[j], lfd[j]), 'cpm:dates', f'activity {j} {p}')
    good = path[0] == 1 and path[-1] == p.sink and all(b in p.succ[a] and esd[a] + dur[a] == esd[b] for a, b in zip(path[:-1], path[1:])) and all(esd[j] == lfd[j] - dur[j] for j in path)
    run.check(good, 'cpm:critical-path', lambda: f'{path} ESD {esd} dur {dur} {p.succ}')
    with quiet():
        o = c.return_order_cpm()
    run.check(sorted(o) == sorted(p.modes) and all((esd[a], lfd[a] - dur[a]) <= (esd[b], lfd[b] - dur[b]) for a, b in zip(o[:-1], o[1:])), 'cpm:order', lambda: f'{o} {esd} {lfd}')
    if not multi:
        total_order = None
        if rng.random() < 0.5:
            total_order = list(p.modes)
            rng.shuffle(total_order)
        to = total_order or o
        for cut in (True, False):
            with quiet():
                sch = c.run_sgs_on_order(map_nodes=c.map_node, critical_path=path, total_order=None if total_order is None else list(total_order), cut_sgs_by_critical=cut)[0]
            seq = []
            if cut:
                for x in path:
                    anc = set()
                    todo = [x]
                    while todo:
                        for i in preds[todo.pop()]:
                            if i not in anc:
                                anc.add(i)
                                todo.append(i)
                    seq += [y for y in to if y in anc and y not in seq]
                    if x not in seq:
                        seq.append(x)
            else:
                seq = list(to)
            ok, ref = G.sgs(p, [x - 2 for x in seq if x not in (1, p.sink)], [1] * p.n)
            run.require(ok)
            run.hit('cpm:sgs')
            got = {j: (d['start_time'], d['end_time']) for j, d in sch.items()}
            run.eq(got, ref, 'cpm:sgs-schedule', f'cut {cut} order {to} {p}')
        if not p.calendar and p.horizon < total(p) + len(p.modes):
            # the time loop starts one activity per date
            same(run, p, m, snap, 'cpm')
            run.case((repr(p),), p.n > 1)
            return
        run.hit('cpm:loop')
        with quiet():
            sch = c.run_sgs_time_loop(map_nodes=c.map_node, critical_path=path, total_order=None if total_order is None else list(total_order))[0]
        got = {j: (d['start_time'], d['end_time']) for j, d in sch.items()}
        bad = G.valid(p, got, [1] * p.n)
        run.check(bad is None, f'cpm:loop-invalid:{bad}', lambda: f'{got} {p}')
    same(run, p, m, snap, 'cpm')
    run.case((repr(p),), p.n > 1)


def nondelay(run, p, s, modes, mech, strict=True):
    """Without calendar: at every event no waiting activity could have started."""
    preds = p.preds()
    events = sorted({0} | {e for _, e in s.values()})
    for t in events:
        for j, (a, b) in s.items():
            if a > t and all(s[i][1] <= t for i in preds[j]):
                if not strict and any(s[i][1] == t and s[i][0] == t for i in preds[j]):
                    continue        # released by an activity of no duration within the same date
                if not strict and j == p.sink:
                    continue
                d = p.modes[j][modes[j]]
                fits = all(d[r] + sum(p.modes[k][modes[k]][r] for k, (x, y) in s.items() if x <= t < y) <= p.res[r] for r in p.res if r not in p.nonren)
                if not run.check(not fits, mech, lambda: f'activity {j} could start at {t} in {s} modes {modes} {p}'):
                    return


# ------------------------------------------------------------------------------------------- greedy

def g_pile(run, rng):
    cal = rng.random() < 0.4
    kind = rng.choice(['single', 'single', 'multi'] + (['calendar', 'calendar', 'mcalendar'] if cal else []))
    p, m = proj(rng, kind, nmax=8)
    ms = feas_modes(p)
    run.require(ms)
    if 'multi' in kind or 'm' == kind[0]:
        run.hit('pile:multi')
    snap = snapshot(p, m)
    cls = rcpsp_pile.PileSolverRCPSP_Calendar if cal else rcpsp_pile.PileSolverRCPSP
    with quiet():
        solver = cls(m)
    for gc in rng.sample(list(rcpsp_pile.GreedyChoice), 2):
        with quiet():
            rs = solver.solve(greedy_choice=gc)
        run.hit('pile')
        run.hit('pile:calendar', int(cal))
        sol = rs.get_best_solution()
        mech = 'pile-calendar' if cal else 'pile'
        mk = checked(run, p, m, sol, mech)
        if mk is None:
            return
        run.check(len(rs.list_solution_fits) == 1 and rs.list_solution_fits[0][1] == -mk, mech + ':fitness', lambda: f'{rs.list_solution_fits[0][1]} {mk}')
        md = [int(x) for x in sol.rcpsp_modes]
        run.check(tuple(md) in set(ms), mech + ':modes', lambda: f'{md} {p}')
        s = G.sched_of(sol)
        perm = [int(x) for x in sol.rcpsp_permutation]
        run.check(sorted(perm) == list(range(p.n)) and all(s[a + 2][0] <= s[b + 2][0] for a, b in zip(perm[:-1], perm[1:])), mech + ':permutation', lambda: f'{perm} {s}')
        modes = {j: G.mode_of(p, md, j) for j in p.modes}
        if not cal:
            nondelay(run, p, s, modes, 'pile:delay')
        preds = p.preds()
        desc = {}
        for j in sorted(p.modes, reverse=False):
            seen, todo = set(), [j]
            while todo:
                for k in p.succ[todo.pop()]:
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
            desc[j] = len(seen)
        first = [j for j in range(2, p.n + 2) if preds[j] <= {1} and all(p.modes[j][modes[j]][r] <= p.cap(r, u) for r in p.res for u in range(0, max(1, p.modes[j][modes[j]]['duration']) if not cal else p.modes[j][modes[j]]['duration']))]
        if first and perm and s[perm[0] + 2][0] == 0:
            if gc == rcpsp_pile.GreedyChoice.MOST_SUCCESSORS:
                run.check(desc[perm[0] + 2] == max(desc[j] for j in first), mech + ':first-choice', lambda: f'{gc} {perm} {desc} of {first}')
            if gc == rcpsp_pile.GreedyChoice.FASTEST:
                run.check(p.modes[perm[0] + 2][modes[perm[0] + 2]]['duration'] == min(p.modes[j][modes[j]]['duration'] for j in first), mech + ':first-choice', lambda: f'{gc} {perm} of {first} {p}')
    same(run, p, m, snap, 'pile')
    run.case((repr(p), cal), p.n > 1)


def g_exec(run, rng):
    p, m = proj(rng, rng.choice(['single', 'multi']), nmax=8)
    ms = feas_modes(p)
    run.require(ms)
    snap = snapshot(p, m)
    with quiet():
        ex = rcpsp_pile.Executor(m)
    for _ in range(2):
        md = list(rng.choice(ms))
        modes = {j: G.mode_of(p, md, j) for j in p.modes}
        pr = list(range(2, p.sink + 1))
        rng.shuffle(pr)
        pr = [1] + pr
        given = list(pr)
        with quiet():
            rs = ex.compute_schedule_from_priority_list(given, dict(modes))
        run.hit('executor')
        run.check(given == pr, 'executor:argument-modified', lambda: f'{pr} -> {given}')
        sol = rs.get_best_solution()
        run.eq([int(x) for x in sol.rcpsp_modes], md, 'executor:modes')
        mk = checked(run, p, m, sol, 'executor', modes=md)
        if mk is None:
            return
        s = G.sched_of(sol)
        nondelay(run, p, s, modes, 'executor:delay')
        first = [j for j in range(2, p.n + 2) if p.preds()[j] <= {1} and all(p.modes[j][modes[j]][r] <= p.res[r] for r in p.res)]
        if first:
            run.check(s[min(first, key=pr.index)][0] == 0, 'executor:priority', lambda: f'{s} {pr} {p}')
    same(run, p, m, snap, 'executor')
    run.case((repr(p),), p.n > 1)


# ------------------------------------------------------------------------------------------- constraint programming

def params_cp(rng):
    c = ParametersCP.default()
    c.TimeLimit = c.TimeLimit_iter0 = 300
    c.intermediate_solution = rng.random() < 0.6
    return c


def g_cp(run, rng):
    kind = rng.choice(['single', 'single', 'multi', 'multi', 'calendar', 'mcalendar'])
    part = rng.random() < 0.45
    p, m = proj(rng, kind, nmax=3 if part else 5, max_dur=3 if part else 4, overload=False)
    cls = rng.choice([cp_solvers.CP_RCPSP_MZN, cp_solvers.CP_MRCPSP_MZN]) if kind == 'single' else cp_solvers.CP_MRCPSP_MZN
    if cls is cp_solvers.CP_RCPSP_MZN:
        m = no_empty_needs(p)
    if kind == 'multi' and rng.random() < 0.25 and p.nonren:
        r = rng.choice(p.nonren)
        p.res[r] = max(0, sum(min(x[r] for x in p.modes[j].values()) for j in p.modes) - 1)
        with quiet():
            m = G.build(p)
    snap = snapshot(p, m)
    ps = {}
    if part:
        got = some_schedule(rng, p)
        if got:
            ps = partial(rng, p, *got, [k for k in ALLK if (k != 'task_mode' or kind != 'single')])
    ub = (min(len(v) for v in p.res.values()) if p.calendar else total(p))
    solver = cls(m)
    args = {}
    if ps:
        args['partial_solution'] = rm.PartialSolution(**ps)
        run.hit('cp:partial')
    if rng.random() < 0.5:
        args['output_type'] = True
    with quiet():
        solver.init_model(**args)
        rs = solver.solve(parameters_cp=params_cp(rng), verbose=False) if True else None
    run.hit('cp')
    run.hit('cp:multi', int('multi' in kind))
    run.hit('cp:calendar', int(p.calendar))
    want = exact(p, ps, ub) if ps else G.optimum(p) if not p.calendar else (G.optimum(p) or exact(p, ps, ub))
    mech = ('cp-single' if cls is cp_solvers.CP_RCPSP_MZN else 'cp-multi') + (':calendar' if p.calendar else '')
    mk = storage(run, p, m, rs, mech)
    if mk == 'bad':
        return
    if want is None:
        run.hit('cp:infeasible')
    run.eq(mk, want, mech + ':optimal', f'{ps} {p}')
    if ps and rs.list_solution_fits:
        ok = pref(p, ps)
        for s, _ in rs.list_solution_fits:
            st = {j: a for j, (a, _) in G.sched_of(s).items()}
            md = {j: G.mode_of(p, [int(x) for x in s.rcpsp_modes], j) for j in p.modes}
            run.check(ok(st, md), mech + ':partial-solution', lambda: f'{ps} {st} {md}')
    same(run, p, m, snap, 'cp')
    run.case((repr(p), repr(ps), mech), p.n > 1)


def g_modes(run, rng):
    p, m = proj(rng, rng.choice(['multi', 'mcalendar']), nmax=4)
    if p.nonren and rng.random() < 0.5:
        r = rng.choice(p.nonren)
        lo = sum(min(x[r] for x in p.modes[j].values()) for j in p.modes)
        v = lo + rng.randint(-1, 1)
        p.res[r] = max(0, v) if not p.calendar else [max(0, v)] * len(p.res[r])
        with quiet():
            m = G.build(p)
    ms = {(1,) + x + (1,) for x in feas_modes(p)}
    solver = cp_solvers.CP_MRCPSP_MZN_MODES(m, cp_solver_name=CPSolverName.GECODE)
    c = ParametersCP.default()
    c.TimeLimit = 300
    c.all_solutions = True
    ps = {}
    if rng.random() < 0.5 and ms:
        j = rng.randint(2, p.n + 1)
        ps = {j: rng.choice(sorted(ms))[j - 1]}
        ms = {x for x in ms if x[j - 1] == ps[j]}
    with quiet():
        solver.init_model(**({'partial_solution': rm.PartialSolution(task_mode=ps)} if ps else {}))
        got = solver.solve(parameters_cp=c)
    run.hit('modes')
    run.check({tuple(int(y) for y in x) for x in got} == ms, 'modes:assignments', lambda: f'{sorted(map(tuple, got))} want {sorted(ms)} {ps} {p}')
    run.case((repr(p), repr(ps)), len(ms) > 1)


# ------------------------------------------------------------------------------------------- linear programming

def g_lp(run, rng):
    kind = rng.choice(['single', 'single', 'multi', 'calendar', 'mcalendar'])
    part = rng.random() < 0.4
    p, m = proj(rng, kind, nmax=3 if part else 5, max_dur=3 if part else 4)
    single = kind == 'single' and rng.random() < 0.6
    cls = rcpsp_lp_solver.LP_RCPSP if single else rcpsp_lp_solver.LP_MRCPSP
    snap = snapshot(p, m)
    got = some_schedule(rng, p)
    run.require(got is not None)
    md, s = got
    args, ps = {}, {}
    mode = rng.choice(['start', 'greedy', 'dummy']) if not part else 'start'
    if mode == 'start':
        args['start_solution'] = rm.RCPSPSolution(problem=m, rcpsp_schedule={j: {'start_time': a, 'end_time': b} for j, (a, b) in s.items()}, rcpsp_modes=list(md), rcpsp_schedule_feasible=True)
    else:
        run.require(not (p.calendar and mode == 'greedy'))
        args['greedy_start'] = mode == 'greedy'
    if part:
        ps = partial(rng, p, md, s, [k for k in ALLK if k != 'task_mode' and (single or k in ('start_times', 'partial_permutation', 'list_partial_order'))])
        if ps:
            args['partial_solution'] = rm.PartialSolution(**ps)
            run.hit('lp:partial')
    del mipsub.LOG[:]
    solver = cls(m)
    pm = ParametersMilp.default()
    pm.retrieve_all_solution = rng.random() < 0.7
    with quiet():
        solver.init_model(**args)
        ub = int(m.evaluate(solver.start_solution)['makespan']) if solver.start_solution.rcpsp_schedule_feasible else None
        run.require(not (p.calendar and ub is None))
        rs = solver.solve(parameters_milp=pm)
    run.hit('lp')
    run.hit('lp:calendar', int(p.calendar))
    mech = ('lp-single' if single else 'lp-multi') + (':calendar' if p.calendar else '')
    if mode == 'start' or kind in ('single', 'calendar'):
        run.hit('lp:start')
        run.check(mipsub.LOG and mipsub.LOG[0]['start'] is True, mech + ':start-solution', lambda: f'the start solution {s} is not a solution of the model: {mipsub.LOG} {p} {ps}')
    want = exact(p, ps, s[p.sink][1]) if ps else G.optimum(p)
    mk = storage(run, p, m, rs, mech)
    if mk == 'bad':
        return
    run.eq(mk, want, mech + ':optimal', f'{ps} {p}')
    if not pm.retrieve_all_solution:
        run.check(len(rs.list_solution_fits) == 1, mech + ':number')
    if ps:
        ok = pref(p, ps)
        for x, _ in rs.list_solution_fits:
            st = {j: a for j, (a, _) in G.sched_of(x).items()}
            run.check(ok(st, {j: G.mode_of(p, [int(y) for y in x.rcpsp_modes], j) for j in p.modes}), mech + ':partial-solution', lambda: f'{ps} {st}')
    same(run, p, m, snap, 'lp')
    run.case((repr(p), repr(ps), mech), p.n > 1)


def g_lns_lp(run, rng):
    kind = rng.choice(['single', 'single', 'multi'])
    p, m = proj(rng, kind, nmax=6)
    got = some_schedule(rng, p)
    run.require(got is not None)
    md, s = got
    single = kind == 'single' and rng.random() < 0.6
    start = rm.RCPSPSolution(problem=m, rcpsp_schedule={j: {'start_time': a, 'end_time': b} for j, (a, b) in s.items()}, rcpsp_modes=list(md), rcpsp_schedule_feasible=True)
    frac = rng.choice([0, 0.3, 0.6, 0.9, 1.0])
    delta = (rng.randint(0, 3), rng.randint(0, 3))
    fix = single and rng.random() < 0.5
    if fix:
        h = lplns.ConstraintHandlerFixStartTime(problem=m, fraction_fix_start_time=frac)
        delta = (0, 0)
    elif single:
        h = lplns.ConstraintHandlerStartTimeInterval(problem=m, fraction_to_fix=frac, minus_delta=delta[0], plus_delta=delta[1])
    else:
        h = lplns.ConstraintHandlerStartTimeIntervalMRCPSP(problem=m, fraction_to_fix=frac, minus_delta=delta[0], plus_delta=delta[1])
    solver = (rcpsp_lp_solver.LP_RCPSP if single else rcpsp_lp_solver.LP_MRCPSP)(m)
    with quiet():
        solver.init_model(start_solution=start)
    n0 = len(solver.model.constrs)
    seen = []
    init = ResultStorage(list_solution_fits=[(start, -s[p.sink][1])], mode_optim=ModeOptim.MAXIMIZATION)

    class Init:
        def get_starting_solution(self):
            return init

    class Spy:
        """Records the centre of each neighbourhood and what the solver finds in it."""

        def adding_constraint_from_results_store(self, milp_solver, result_storage):
            c = result_storage.get_best_solution()
            out = h.adding_constraint_from_results_store(milp_solver, result_storage)
            del mipsub.LOG[:]
            seen.append([G.sched_of(c), None, len(milp_solver.model.constrs)])
            return out

        def remove_constraints_from_previous_iteration(self, milp_solver, previous_constraints):
            seen[-1][1] = [dict(x) for x in mipsub.LOG]
            h.remove_constraints_from_previous_iteration(milp_solver, previous_constraints)
            run.check(len(milp_solver.model.constrs) == n0, 'lns-lp:constraints-left', lambda: f'{len(milp_solver.model.constrs)} {n0}')
    found = []

    class Post:
        def build_other_solution(self, rs):
            found.append(rs)
            return rs
    lns = LNS_MILP(problem=m, milp_solver=solver, initial_solution_provider=Init(), constraint_handler=Spy(), post_process_solution=Post())
    its = rng.randint(1, 4)
    with quiet():
        rs = lns.solve_lns(parameters_milp=ParametersMilp.default(), nb_iteration_lns=its)
    run.hit('lns-lp')
    mk = storage(run, p, m, rs, 'lns-lp')
    if mk in (None, 'bad'):
        return
    run.check(mk <= s[p.sink][1], 'lns-lp:worse-than-start', lambda: f'{mk} {s}')
    best = min(-f for r in found for _, f in r.list_solution_fits)
    run.check(mk == min(best, s[p.sink][1]), 'lns-lp:best-lost', lambda: f'{mk} found {best}')
    nb = p.n + 2
    kept = int(frac * nb)
    for (centre, log, _), r in zip(seen, found):
        run.hit('lns-lp:neighbourhood')
        run.check(bool(log) and log[0]['start'] is True, 'lns-lp:start-solution', lambda: f'{log} centre {centre}')
        end = max(e for _, e in centre.values())
        out = G.sched_of(r.get_best_solution())
        near = [j for j in centre if centre[j][0] - delta[0] <= out[j][0] <= min(centre[j][0] + delta[1], end)]
        need = kept if fix else max(0, kept - len([j for j in centre if centre[j][1] >= end - 5]))
        run.check(len(near) >= need, 'lns-lp:neighbourhood', lambda: f'{out} around {centre} only {near} of {need} close')
        if frac == 0:
            run.eq(out[p.sink][1], G.optimum(p), 'lns-lp:unconstrained-iteration', f'{p}')
    run.case((repr(p), frac, delta, fix), p.n > 1)


def g_lns_cp(run, rng):
    kind = rng.choice(['single', 'multi', 'calendar'])
    p, m = proj(rng, kind, nmax=5)
    if kind == 'single':
        m = no_empty_needs(p)
    got = some_schedule(rng, p)
    run.require(got is not None)
    md, s = got
    start = rm.RCPSPSolution(problem=m, rcpsp_schedule={j: {'start_time': a, 'end_time': b} for j, (a, b) in s.items()}, rcpsp_modes=list(md), rcpsp_schedule_feasible=True)
    cls = cp_solvers.CP_RCPSP_MZN if kind == 'single' and rng.random() < 0.5 else cp_solvers.CP_MRCPSP_MZN
    solver = cls(m)
    with quiet():
        solver.init_model(output_type=True)
    frac, delta = rng.choice([0, 0.5, 0.9, 1.0]), (rng.randint(0, 3), rng.randint(0, 3))
    which = rng.choice(['interval', 'part', 'mix'])
    margin = rng.choice([0, 2, 5])
    if which == 'interval':
        h = cplns.ConstraintHandlerStartTimeInterval_CP(problem=m, fraction_to_fix=frac, minus_delta=delta[0], plus_delta=delta[1], delta_time_from_makepan_to_not_fix=margin)
    elif which == 'part':
        h = cplns.ConstraintHandlerByPart_CP(problem=m, fraction_to_fix=frac, nb_cut_part=rng.randint(1, 4), minus_delta=delta[0], plus_delta=delta[1], delta_time_from_makepan_to_not_fix=margin)
    else:
        with quiet():
            h = cplns.build_neighbor_operator(rng.choice(list(cplns.OptionNeighbor)), m)
    init = ResultStorage(list_solution_fits=[(start, -s[p.sink][1])], mode_optim=ModeOptim.MAXIMIZATION)
    found = []

    class Init:
        def get_starting_solution(self):
            return init

    class Post:
        def build_other_solution(self, rs):
            found.append(rs)
            return rs
    lns = LNS_CP(problem=m, cp_solver=solver, initial_solution_provider=Init(), constraint_handler=h, post_process_solution=Post())
    c = params_cp(rng)
    its = rng.randint(1, 3)
    with quiet():
        rs = lns.solve_lns(parameters_cp=c, nb_iteration_lns=its, nb_iteration_no_improvement=10)
    run.hit('lns-cp')
    run.check(len(found) == its, 'lns-cp:iterations', lambda: f'{len(found)} of {its} iterations found the solution they start from: {p}')
    mk = storage(run, p, m, rs, 'lns-cp')
    if mk in (None, 'bad'):
        return
    run.check(mk <= s[p.sink][1], 'lns-cp:worse-than-start', lambda: f'{mk} {s}')
    if found:
        best = min(-f for r in found for _, f in r.list_solution_fits)
        run.check(mk == min(best, s[p.sink][1]), 'lns-cp:best-lost', lambda: f'{mk} found {best}')
        if frac == 0 and which == 'interval':
            run.eq(best, G.optimum(p), 'lns-cp:unconstrained-iteration', f'{p}')
        if which == 'interval':
            out = G.sched_of(found[0].get_best_solution())
            end = max(e for _, e in s.values())
            near = [j for j in s if s[j][0] - delta[0] <= out[j][0] <= min(s[j][0] + delta[1], end)]
            need = max(0, int(frac * (p.n + 2)) - len([j for j in s if s[j][1] >= end - margin]))
            run.check(len(near) >= need, 'lns-cp:neighbourhood', lambda: f'{out} around {s} only {near} of {need} close')
    run.case((repr(p), frac, delta, which), p.n > 1)


def g_iter(run, rng):
    kind = rng.choice(['calendar', 'calendar', 'mcalendar', 'single', 'multi'])
    p, m = proj(rng, kind, nmax=4)
    run.require(feas_modes(p))
    snap = snapshot(p, m)
    c = params_cp(rng)
    c.intermediate_solution = True
    with quiet():
        solver = csi.SolverWithCalendarIterative(m)
        rs = solver.solve(parameters_cp=c, nb_iteration_lns=rng.randint(1, 4), nb_iteration_no_improvement=20)
    run.hit('iterative')
    b = rs.get_best_solution()
    mk = checked(run, p, m, b, 'iterative')
    for s, f in rs.list_solution_fits:
        checked(run, p, m, s, 'iterative')
    opt = G.optimum(p)
    if mk is not None and opt is not None:
        run.check(mk >= opt, 'iterative:better-than-optimal', lambda: f'{mk} {opt} {p}')
        if kind in ('single', 'multi'):
            run.hit('iterative:plain')
    same(run, p, m, snap, 'iterative')
    run.case((repr(p),), p.n > 1)


# ------------------------------------------------------------------------------------------- metaheuristics and dispatch

def g_meta(run, rng):
    which = rng.choice(['ga', 'ga', 'ls'])
    kind = rng.choice(['single', 'multi']) if which == 'ga' else 'single'
    p, m = proj(rng, kind, nmax=6)
    run.require(p.n >= 2 and feas_modes(p))
    snap = snapshot(p, m)
    count = [0]
    legal = [None]
    real = m.evaluate_from_encoding

    def spy(v, name):
        count[0] += 1
        out = real(v, name)
        if out['makespan'] < 99999999 and not out.get('mean_resource_reserve') is None:
            if legal[0] is None or out['makespan'] < legal[0]:
                legal[0] = out['makespan']
        return out
    if which == 'ga':
        m.evaluate_from_encoding = spy
        pop = rng.choice([4, 6, 8])
        evals = pop * rng.randint(2, 5)
        if kind == 'single':
            par = ParametersGa.default_rcpsp()
            par.pop_size, par.max_evals, par.tournament_size = pop, evals, 2
            with quiet():
                rs = rcpsp_ga_solver.GA_RCPSP_Solver(m).solve(parameters_ga=par)
            run.check(count[0] <= evals + 2 * pop, 'ga:budget', lambda: f'{count[0]} evaluations, at most {evals} asked')
        else:
            par = ParametersAltGa.default_mrcpsp()
            par.pop_size, par.max_evals, par.tournament_size, par.sub_evals = pop, 2 * evals, 2, [evals, evals]
            with quiet():
                rs = rcpsp_ga_solver.GA_MRCPSP_Solver(m).solve(parameters_ga=par)
            run.check(count[0] <= 2 * evals + 6 * pop, 'ga:budget', lambda: f'{count[0]} evaluations, at most {2 * evals} asked')
        del m.evaluate_from_encoding
        run.hit('ga')
        b = rs.get_best_solution()
        md = [int(x) for x in b.rcpsp_modes]
        ok, ref = G.sgs(p, [int(x) for x in b.rcpsp_permutation], md)
        if ok and tuple(md) in set(feas_modes(p)):
            run.eq(G.sched_of(b), ref, 'ga:schedule')
        elif kind == 'single':
            run.fail('ga:infeasible', f'{b.rcpsp_permutation} {p}')
    else:
        solver = rng.choice(list(ls_solver.LS_SOLVER))
        with quiet():
            d = m.get_dummy_solution()
            e = m.evaluate(d)['makespan']
            rs = ls_solver.LS_RCPSP_Solver(m, ls_solver=solver).solve(nb_iteration_max=rng.randint(5, 60))
        run.hit('ls')
        mk = checked(run, p, m, rs.get_best_solution(), 'ls')
        if mk is not None:
            run.check(mk <= e, 'ls:worse-than-start', lambda: f'{mk} {e} {p}')
    same(run, p, m, snap, which)
    run.case((repr(p), which), True)


SMALL = {'nb_iteration_lns': 2, 'nb_iteration_max': 20}


def g_dispatch(run, rng):
    kind = rng.choice(['single', 'multi', 'calendar'])
    p, m = proj(rng, kind, nmax=4)
    run.require(p.n >= 2 and some_schedule(rng, p))
    with quiet():
        av = RS.look_for_solver(m)
    want = {'single': {'LP_RCPSP', 'LP_MRCPSP', 'PileSolverRCPSP', 'PileSolverRCPSP_Calendar', 'CP_RCPSP_MZN', 'CP_MRCPSP_MZN', 'LNS_LP_RCPSP_SOLVER', 'LNS_CP_RCPSP_SOLVER', 'LS_RCPSP_Solver', 'GA_RCPSP_Solver', 'SolverWithCalendarIterative'},
            'multi': {'LP_MRCPSP', 'PileSolverRCPSP', 'PileSolverRCPSP_Calendar', 'CP_MRCPSP_MZN', 'LNS_LP_RCPSP_SOLVER', 'LNS_CP_RCPSP_SOLVER', 'LS_RCPSP_Solver', 'GA_MRCPSP_Solver', 'SolverWithCalendarIterative'},
            'calendar': {'LP_MRCPSP', 'PileSolverRCPSP_Calendar', 'CP_MRCPSP_MZN', 'LNS_LP_RCPSP_SOLVER', 'LNS_CP_RCPSP_SOLVER', 'LS_RCPSP_Solver', 'SolverWithCalendarIterative'}}[kind]
    run.check(want <= {a.__name__ for a in av}, 'dispatch:available', lambda: f'{kind}: {sorted(a.__name__ for a in av)}')
    # what each solver does is the matter of the other groups; here the exact ones and the greedy ones through the common entry point
    todo = [a for a in av if a.__name__ in ('LP_RCPSP', 'LP_MRCPSP', 'PileSolverRCPSP', 'PileSolverRCPSP_Calendar', 'CP_RCPSP_MZN', 'CP_MRCPSP_MZN', 'LS_RCPSP_Solver') and not (a.__name__ == 'LP_MRCPSP' and kind != 'single') and not (a.__name__ == 'LS_RCPSP_Solver' and kind != 'single')]
    method = rng.choice(todo)
    par = dict(RS.solvers_map[method][1])
    par.update({k: v for k, v in SMALL.items() if k in par})
    with quiet():
        rs = RS.solve(method, m, **par)
    run.hit('dispatch')
    mk = checked(run, p, m, rs.get_best_solution(), 'dispatch')
    if mk is not None and method.__name__ in ('LP_RCPSP', 'LP_MRCPSP', 'CP_RCPSP_MZN', 'CP_MRCPSP_MZN'):
        run.eq(mk, G.optimum(p), 'dispatch:optimal', f'{method.__name__} {p}')
    run.case((repr(p), method.__name__), True)


GROUPS = [('cpm', g_cpm, 600, 8000), ('pile', g_pile, 320, 3000), ('executor', g_exec, 200, 2000), ('cp', g_cp, 340, 4000), ('modes', g_modes, 60, 600),
          ('lp', g_lp, 500, 5000), ('lns-lp', g_lns_lp, 120, 1200), ('lns-cp', g_lns_cp, 40, 500), ('iterative', g_iter, 40, 400), ('meta', g_meta, 60, 600), ('dispatch', g_dispatch, 60, 500)]

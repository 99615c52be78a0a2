"""C25 Knapsack problems: selections, moves and solvers agree with the items."""
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

from vk.dostubs import quiet, install, empty_data_dirs

install()
warnings.filterwarnings('ignore')
from vk import mipsub
mipsub.install(memory=True)
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.knapsack import knapsack_model as km, knapsack_parser as kp, knapsack_solvers as ks
    from skdecide.builders.discrete_optimization.knapsack.mutation import mutation_knapsack as mk
    from skdecide.builders.discrete_optimization.knapsack.solvers import cp_solvers as cp, dyn_prog_knapsack as dp, greedy_solvers as gs, lp_solvers as lp, knapsack_lns_solver as lnslp, knapsack_lns_cp_solver as lnscp
    from skdecide.builders.discrete_optimization.generic_tools.mutations import mutation_catalog as mc
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, ModeOptim, ObjectiveHandling
    from skdecide.builders.discrete_optimization.generic_tools.ls import local_search as ls, hill_climber as hc, simulated_annealing as sa
    from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp, MilpSolverName
    from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP, CPSolverName
    from skdecide.builders.discrete_optimization.generic_tools.lns_mip import LNS_MILP
    from skdecide.builders.discrete_optimization.generic_tools.lns_cp import LNS_CP
    from skdecide.builders.discrete_optimization.generic_tools.ea.ga import Ga

RULE = 'random instances of 1 to 9 items (indexes equal to positions, shuffled, or arbitrary; items heavier than the capacity, equal densities, worthless items), random selections within and beyond the capacity, move chains with undo, solver parameters; non-trivial = at least two items'
REQUIRED = {'model': 400, 'model:arbitrary-indexes': 100, 'model:overweight': 80, 'model:forced': 100, 'mobj': 100, 'edit': 100, 'parse': 80, 'move': 1500, 'undo': 500, 'move:kp': 300, 'move:single': 300, 'move:generic': 100, 'climb': 30, 'greedy': 200, 'greedy:heavy': 50,
            'dyn': 200, 'dyn:greedy-start': 60, 'dyn:heavy': 60, 'dyn:np': 60, 'dyn:prefix': 30, 'lp': 80, 'lp:pool': 2, 'lp:start': 20, 'cp': 20, 'lns': 12, 'dispatch': 30, 'ga': 4}
ASSUMPTIONS = ['weights are positive integers and values non-negative integers (reals for the model and the moves)', 'MiniZinc models are solved by Gecode instead of the absent Chuffed and, for python-mip, HiGHS replaces the bundled CBC that crashes here; the relocated OR-tools knapsack module is reached through an adapter that only renames its methods',
               'the generic bit flips know nothing of cached values, hence are used with force_recompute_values']
_tmp = None
EPS = 1e-6


class _KS:
    """The old names of the OR-tools knapsack solver."""
    KNAPSACK_MULTIDIMENSION_BRANCH_AND_BOUND_SOLVER = 'KNAPSACK_MULTIDIMENSION_BRANCH_AND_BOUND_SOLVER'

    def __init__(self, kind, name):
        from ortools.algorithms.python import knapsack_solver as k
        self.s = k.KnapsackSolver(getattr(k.SolverType, kind), name)

    def Init(self, *a):
        self.s.init(*a)

    def Solve(self):
        return self.s.solve()

    def BestSolutionContains(self, i):
        return self.s.best_solution_contains(i)


class _Mod:
    KnapsackSolver = _KS


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-7 * (1 + abs(float(b)))


def inst(rng, lo=1, hi=9, real=False, forced=False, indexes=None, cls=None):
    n = rng.randint(lo, hi)
    kind = indexes or rng.choice(['position', 'position', 'shuffled', 'arbitrary'])
    idx = list(range(n))
    if kind == 'shuffled':
        rng.shuffle(idx)
    elif kind == 'arbitrary':
        idx = rng.sample(range(-5, 40), n)
    style = rng.choice(['any', 'any', 'equal', 'close'])
    items = []
    for i in idx:
        if style == 'equal':
            w = rng.randint(1, 4)
            v = 2 * w
        elif style == 'close':
            w = rng.randint(3, 5)
            v = rng.randint(3, 5)
        else:
            w = rng.randint(1, 12)
            v = rng.randint(0, 15)
        if real:
            w, v = w * 0.37, v * 1.21
        items.append((i, v, w))
    tot = sum(x[2] for x in items)
    cap = rng.choice([rng.randint(1, max(1, int(tot))), rng.randint(1, 10), int(tot), int(tot) // 2 + 1])
    m = (cls or km.KnapsackModel)([km.Item(*x) for x in items], cap, force_recompute_values=forced)
    return items, cap, m


def tot(items, taken):
    return sum(x[1] for x, t in zip(items, taken) if t), sum(x[2] for x, t in zip(items, taken) if t)


def ints(l):
    return [int(x) for x in l]


def consistent(run, I, sol, mech, info='', feasible=True):
    items, cap, m = I
    t = ints(sol.list_taken)
    if not run.check(len(t) == len(items) and all(x in (0, 1) for x in t), mech + ':not-a-selection', lambda: f'{t} {items} {info}'):
        return None
    v, w = tot(items, t)
    run.check(near(sol.value, v) and near(sol.weight, w), mech + ':value', lambda: f'{sol.value},{sol.weight} want {v},{w} taken {t} of {items} {info}')
    if feasible:
        run.check(w <= cap + EPS, mech + ':too-heavy', lambda: f'{w} > {cap} taken {t} of {items} {info}')
    return v


def optimum(I):
    items, cap, m = I
    best = 0
    for t in itertools.product((0, 1), repeat=len(items)):
        v, w = tot(items, t)
        if w <= cap:
            best = max(best, v)
    return best


def storage(run, I, rs, mech, optimal=False, info=''):
    """Every stored solution is a selection within the capacity whose fitness is its value; the best one is first among them."""
    if not run.check(len(rs.list_solution_fits) > 0, mech + ':empty', lambda: f'{I[0]} {I[1]} {info}'):
        return None
    vals = []
    for sol, f in rs.list_solution_fits:
        v = consistent(run, I, sol, mech, f'capacity {I[1]} {info}')
        if v is None:
            return None
        run.check(near(f, v), mech + ':fitness', lambda: f'{f} want {v}')
        run.check(I[2].satisfy(sol), mech + ':satisfy')
        vals.append(v)
    b, f = rs.get_best_solution_fit()
    run.check(near(f, max(vals)), mech + ':best', lambda: f'{f} {vals}')
    if optimal:
        run.check(near(max(vals), optimum(I)), mech + ':optimal', lambda: f'{max(vals)} want {optimum(I)} items {I[0]} capacity {I[1]} {info}')
    return max(vals)


# ------------------------------------------------------------------------------------------- model

def g_model(run, rng):
    forced = rng.random() < 0.4
    real = rng.random() < 0.3
    mobj = rng.random() < 0.3
    I = inst(rng, real=real, forced=forced)
    items, cap, m = I
    n = len(items)
    if mobj:
        m = km.KnapsackModel_Mobj.from_knapsack(m) if rng.random() < 0.5 else km.KnapsackModel_Mobj([km.Item(*x) for x in items], cap, force_recompute_values=forced)
        run.hit('mobj')
    t = [rng.randint(0, 1) for _ in range(n)]
    v, w = tot(items, t)
    info = f'{items} capacity {cap} taken {t}'
    over = max(0, w - cap)
    run.hit('model')
    run.hit('model:arbitrary-indexes', int([x[0] for x in items] != list(range(n))))
    run.hit('model:overweight', int(over > 0))

    def good(e, taken, mech):
        v, w = tot(items, taken)
        ok = run.check(near(e['value'], v) and near(e['weight_violation'], max(0, w - cap)), mech, lambda: f'{e} want {v},{max(0, w - cap)} {taken} {info}')
        if ok and mobj:
            h = max([x[2] for x, k in zip(items, taken) if k], default=0)
            run.check(near(e['heaviest_item'], h) and near(e['weight'], w), mech + ':mobj', lambda: f'{e} {info}')
    kind = rng.choice(['plain', 'value', 'full', 'bool', 'numpy'])
    if kind == 'plain':
        sol = km.KnapsackSolution(problem=m, list_taken=list(t))
    elif kind == 'value':
        sol = km.KnapsackSolution(problem=m, list_taken=list(t), value=v)
    elif kind == 'full':
        sol = km.KnapsackSolution(problem=m, list_taken=list(t), value=v, weight=w)
    elif kind == 'bool':
        sol = km.KnapsackSolution(problem=m, list_taken=[bool(x) for x in t])
    else:
        sol = km.KnapsackSolution(problem=m, list_taken=np.array(t))
    if rng.random() < 0.5:
        run.check(bool(m.satisfy(sol)) == (w <= cap), 'model:satisfy', lambda: f'{kind} {info}')
    good(m.evaluate(sol), t, 'model:evaluate')
    run.check(bool(m.satisfy(sol)) == (w <= cap), 'model:satisfy', lambda: f'{kind} {info}')
    run.check(near(sol.value, v) and near(sol.weight, w), 'model:cached')
    good(m.evaluate(sol), t, 'model:evaluate-again')
    good(m.evaluate_from_encoding(list(t), 'list_taken'), t, 'model:encoding')
    d = m.get_dummy_solution()
    run.check(not any(d.list_taken) and len(d.list_taken) == n and m.satisfy(d), 'model:dummy')
    good(m.evaluate(d), [0] * n, 'model:dummy')
    reg = m.get_attribute_register().dict_attribute_to_type
    run.check(reg['list_taken']['n'] == n, 'model:register')
    obj = m.get_objective_register()
    run.check(obj.objective_sense == ModeOptim.MAXIMIZATION and set(obj.dict_objective_to_doc) == set(m.evaluate(sol)), 'model:objectives')
    run.check(m.get_solution_type() is km.KnapsackSolution, 'model:type')
    for k, x in enumerate(items):
        run.check(tuple(m.index_to_item[x[0]]) == x and m.index_to_index_list[x[0]] == k, 'model:index-maps', lambda: info)
    # identity
    a = km.KnapsackSolution(problem=m, list_taken=list(t))
    b = km.KnapsackSolution(problem=m, list_taken=list(t), value=v, weight=w)
    run.check(a == b and hash(a) == hash(b), 'model:equal-hash', lambda: info)
    u = list(t)
    u[rng.randrange(n)] ^= 1
    run.check(not a == km.KnapsackSolution(problem=m, list_taken=u), 'model:equal-differs')
    # copies and edits
    c, l = sol.copy(), sol.lazy_copy()
    run.check(ints(c.list_taken) == t and ints(l.list_taken) == t and near(c.value, v) and near(c.weight, w) and near(l.value, v) and near(l.weight, w), 'copy')
    run.check(c.problem is m, 'copy:problem')
    k = rng.randrange(n)
    c.list_taken[k] = 1 - c.list_taken[k]
    run.eq(ints(sol.list_taken), t, 'copy:aliasing')
    if forced:
        run.hit('model:forced')
        cut = rng.random() < 0.5
        if cut:
            run.check(bool(m.satisfy(c)) == (tot(items, c.list_taken)[1] <= cap), 'model:forced-satisfy', lambda: info)
        good(m.evaluate(c), c.list_taken, 'model:forced-evaluate')
    # another problem
    items2 = [(i, vv + 3, ww + 1) for i, vv, ww in items]
    m2 = km.KnapsackModel([km.Item(*x) for x in items2], cap + 1)
    z = sol.copy()
    z.change_problem(m2)
    v2, w2 = tot(items2, t)
    e = m2.evaluate(z)
    run.hit('edit')
    run.check(near(e['value'], v2) and near(e['weight_violation'], max(0, w2 - cap - 1)) and z.problem is m2, 'change-problem', lambda: f'{e} want {v2},{w2} {info}')
    z.list_taken[k] = 1 - z.list_taken[k]
    run.eq(ints(sol.list_taken), t, 'change-problem:aliasing')
    # aggregated objective
    if not mobj:
        p = get_default_objective_setup(m)
        run.check(p.sense_function == ModeOptim.MAXIMIZATION, 'model:sense')
    else:
        x, y = m.evaluate_mobj(sol), m.evaluate(sol)
        run.check(near(x.vector_fitness[0], y['value']) and near(x.vector_fitness[1], -y['heaviest_item']), 'mobj:tuple')
    run.case((info, kind, forced), n > 1)


def g_parse(run, rng):
    n = rng.randint(1, 8)
    items = [(rng.randint(0, 99), rng.randint(1, 99)) for _ in range(n)]
    cap = rng.randint(1, 200)
    sep = rng.choice([' ', '  ', '\t'])
    text = f'{n}{sep}{cap}\n' + '\n'.join(f'{v}{sep}{w}' for v, w in items) + rng.choice(['', '\n', '\n\n'])
    forced = rng.random() < 0.5
    m = kp.parse_input_data(text, force_recompute_values=forced)
    d = tempfile.mkdtemp(prefix='vkks')
    try:
        f = os.path.join(d, 'ks_x')
        open(f, 'w').write(text)
        m2 = kp.parse_file(f, force_recompute_values=forced)
    finally:
        shutil.rmtree(d)
    run.hit('parse')
    for x in (m, m2):
        run.check([tuple(i) for i in x.list_items] == [(k, v, w) for k, (v, w) in enumerate(items)] and x.max_capacity == cap and x.nb_items == n and x.force_recompute_values == forced, 'parse', lambda: repr(text))
    run.case(text, n > 1)


# ------------------------------------------------------------------------------------------- moves

def g_moves(run, rng):
    kind = rng.choice(['kp', 'kp', 'single', 'single', 'generic'])
    I = inst(rng, 2, 8, real=rng.random() < 0.3, forced=kind == 'generic')
    items, cap, m = I
    n = len(items)
    t = [int(rng.random() < 0.4) for _ in range(n)]
    v, w = tot(items, t)
    sol = km.KnapsackSolution(problem=m, list_taken=list(t))
    if rng.random() < 0.5:
        m.evaluate(sol)
    if kind == 'kp':
        mut = rng.choice([lambda: mk.MutationKnapsack(m), lambda: mk.MutationKnapsack(m, attribute='list_taken'), lambda: mk.MutationKnapsack.build(m, sol)])()
    elif kind == 'single':
        mut = rng.choice([lambda: mk.KnapsackMutationSingleBitFlip(m), lambda: mk.KnapsackMutationSingleBitFlip.build(m, sol)])()
    else:
        _, lm = mc.get_available_mutations(m, sol)
        run.check(len(lm) >= 3, 'move:catalogue', lambda: str(lm))
        with quiet():
            if rng.random() < 0.5:
                c, kw = rng.choice(lm)
                mut = c.build(m, sol, **kw)
            else:
                mut = BasicPortfolioMutation([c.build(m, sol, **kw) for c, kw in lm], [1.0] * len(lm))
    info = f'{items} capacity {cap}'
    for _ in range(rng.randint(3, 12)):
        before = ints(sol.list_taken)
        wb = tot(items, before)[1]
        had = sol.weight is not None
        obj = rng.random() < 0.5
        with quiet():
            if obj:
                sol, move, f = mut.mutate_and_compute_obj(sol)
            else:
                sol, move = mut.mutate(sol)
                f = None
        after = ints(sol.list_taken)
        va, wa = tot(items, after)
        run.hit('move')
        run.hit('move:' + kind)
        detail = f'{before} -> {after} {info}'
        if f is not None:
            run.check(near(f['value'], va) and abs(f['weight_violation'] - max(0, wa - cap)) < 1e-9, 'move:' + kind + ':objectives', lambda: f'{f} want {va},{max(0, wa - cap)} had values {had} {detail}')
        e = m.evaluate(sol)
        run.check(near(e['value'], va) and abs(e['weight_violation'] - max(0, wa - cap)) < 1e-9, 'move:' + kind + ':evaluate', lambda: f'{e} want {va},{max(0, wa - cap)} {detail}')
        changed = [k for k in range(n) if before[k] != after[k]]
        if kind == 'kp':
            if run.check(len(changed) == 1 or not changed and not any(before) and all(wb + x[2] > cap for x in items), 'move:kp:shape', lambda: detail) and changed and after[changed[0]]:
                run.check(wa <= cap + EPS, 'move:kp:overload', lambda: detail)
        elif kind == 'single':
            run.check(len(changed) == 1, 'move:single:shape', lambda: detail)
        if rng.random() < 0.5:
            run.hit('undo')
            with quiet():
                sol = move.backtrack_local_move(sol)
            back = ints(sol.list_taken)
            run.check(back == before, 'undo:' + kind, lambda: f'{detail} -> {back}')
            vb, wb = tot(items, back)
            e = m.evaluate(sol)
            run.check(near(e['value'], vb) and abs(e['weight_violation'] - max(0, wb - cap)) < 1e-9, 'undo:' + kind + ':evaluate', lambda: f'{e} {detail}')
            if rng.random() < 0.4:
                with quiet():
                    sol = move.apply_local_move(sol)
                run.eq(ints(sol.list_taken), after, 'redo:' + kind)
                e = m.evaluate(sol)
                run.check(near(e['value'], va), 'redo:' + kind + ':evaluate', lambda: f'{e} {detail}')
    run.case((info, tuple(t), kind), True)


def g_climb(run, rng):
    forced = rng.random() < 0.5
    I = inst(rng, 3, 8, forced=forced)
    items, cap, m = I
    sol = m.get_dummy_solution()
    _, lm = mc.get_available_mutations(m, sol)
    if not forced:
        lm = [x for x in lm if x[0] is not mc.MutationBitFlip]
    with quiet():
        if rng.random() < 0.5:
            c, kw = rng.choice(lm)
            mut = c.build(m, sol, **kw)
        else:
            mut = BasicPortfolioMutation([c.build(m, sol, **kw) for c, kw in lm], [1.0] * len(lm))
        p = get_default_objective_setup(m)
        mode = rng.choice([ls.ModeMutation.MUTATE_AND_EVALUATE, ls.ModeMutation.MUTATE])
        if rng.random() < 0.5:
            s = hc.HillClimber(evaluator=m, mutator=mut, restart_handler=ls.RestartHandler(), mode_mutation=mode, params_objective_function=p, store_solution=True)
        else:
            s = sa.SimulatedAnnealing(evaluator=m, mutator=mut, restart_handler=ls.RestartHandler(), temperature_handler=sa.TemperatureSchedulingFactor(5, ls.RestartHandler(), 0.95), mode_mutation=mode, params_objective_function=p, store_solution=True)
        rs = s.solve(sol.copy(), nb_iteration_max=80)
    run.hit('climb')
    for x, fx in rs.list_solution_fits:
        v, w = tot(items, ints(x.list_taken))
        want = v - 100000 * max(0, w - cap)
        run.check(near(fx, want), 'climb:stored', lambda: f'{fx} want {want} {x.list_taken} {items} {cap}')
    b, f = rs.get_best_solution_fit()
    run.check(0 <= f <= optimum(I), 'climb:best', lambda: f'{f} {optimum(I)}')
    run.case((repr(items), cap, type(mut).__name__, type(s).__name__), True)


def g_ga(run, rng):
    I = inst(rng, 4, 7, forced=rng.random() < 0.5)
    items, cap, m = I
    with quiet():
        ga = Ga(m, encoding=rng.choice(['list_taken', None]), objective_handling=ObjectiveHandling.AGGREGATE, objectives=['value', 'weight_violation'], objective_weights=[1, -100000], max_evals=200)
        rs = ga.solve()
    run.hit('ga')
    b, f = rs.get_best_solution_fit()
    v, w = tot(items, ints(b.list_taken))
    run.check(near(f, v - 100000 * max(0, w - cap)), 'ga:fitness', lambda: f'{f} {v} {w} {cap}')
    e = m.evaluate(b)
    run.check(near(e['value'], v) and near(e['weight_violation'], max(0, w - cap)), 'ga:evaluate')
    run.case((repr(items), cap), True)


# ------------------------------------------------------------------------------------------- solvers

def g_greedy(run, rng):
    I = inst(rng, real=rng.random() < 0.2)
    items, cap, m = I
    run.hit('greedy')
    run.hit('greedy:heavy', int(any(x[2] > cap for x in items)))
    info = f'{items} capacity {cap}'
    got = []
    for q in (None, gs.compute_density, gs.compute_density_and_penalty):
        sol = gs.greedy_using_queue(m, q)
        v = consistent(run, I, sol, 'greedy', info)
        if v is None:
            return
        t = ints(sol.list_taken)
        w = tot(items, t)[1]
        run.check(all(t[k] or w + x[2] > cap for k, x in enumerate(items)), 'greedy:room-left', lambda: f'{t} {info}')
        got.append(v)
        order = (q or gs.compute_density)(m)
        run.check({tuple(x) for x in order} == {x for x in items if x[2] <= cap}, 'greedy:queue')
        key = (lambda x: x.value / x.weight - x.weight) if q is gs.compute_density_and_penalty else (lambda x: x.value / x.weight)
        run.check(all(key(a) >= key(b) for a, b in zip(order, order[1:])), 'greedy:order')
    run.check(near(got[0], got[1]), 'greedy:default')
    with quiet():
        s = gs.GreedyBest(m)
        s.init_model()
        v = storage(run, I, s.solve(), 'greedy-best', info=info)
        run.check(v is None or near(v, max(got)), 'greedy-best:value', lambda: f'{v} {got}')
        s = gs.GreedyDummy(m)
        s.init_model()
        storage(run, I, s.solve(), 'greedy-dummy')
    run.case(info, len(items) > 1)


def g_dyn(run, rng):
    I = inst(rng)
    items, cap, m = I
    run.hit('dyn')
    run.hit('dyn:heavy', int(any(x[2] > cap for x in items)))
    info = f'{items} capacity {cap}'
    with quiet():
        s = dp.KnapsackDynProg(m)
        s.init_model()
        for _ in range(rng.randint(1, 3)):
            kw = {}
            if rng.random() < 0.4:
                kw['greedy_start'] = True
                run.hit('dyn:greedy-start')
            if rng.random() < 0.2:
                kw['max_time_seconds'] = 1000
            if rng.random() < 0.3:
                kw['max_items'] = len(items) + rng.randint(1, 100)
            np_ = rng.random() < 0.4
            run.hit('dyn:np', int(np_))
            rs = (s.solve_np if np_ else s.solve)(**kw)
            storage(run, I, rs, 'dyn-np' if np_ else 'dyn', optimal=True, info=f'{info} {kw}')
        if rng.random() < 0.3 and len(items) > 1:
            # the first items only
            k = rng.randint(1, len(items))
            rs = dp.KnapsackDynProg(m).solve(max_items=k)
            v = storage(run, I, rs, 'dyn-prefix', info=info)
            run.hit('dyn:prefix')
            b = rs.get_best_solution()
            lim = min(k, len(items))
            run.check(not any(ints(b.list_taken)[lim:]), 'dyn-prefix:items', lambda: f'{b.list_taken} max_items {k}')
    run.case(info, len(items) > 1)


def g_lp(run, rng):
    I = inst(rng)
    items, cap, m = I
    info = f'{items} capacity {cap}'
    kind = rng.choice(['cbc', 'mip', 'mip', 'ortools'])
    run.hit('lp')
    run.hit('lp:' + kind)
    start = {}
    if rng.random() < 0.5:
        g = gs.best_of_greedy(m)
        start = {x[0]: int(t) for x, t in zip(items, g.list_taken)}
        if rng.random() < 0.3:
            start = {x[0]: 0 for x in items}
        run.hit('lp:start')
    with quiet():
        if kind == 'cbc':
            s = lp.LPKnapsackCBC(m, None) if rng.random() < 0.5 else lp.LPKnapsackCBC(m, get_default_objective_setup(m))
            s.init_model(warm_start=start) if start or rng.random() < 0.5 else s.init_model()
            rs = s.solve()
        elif kind == 'ortools':
            lp.pywrapknapsack_solver = _Mod
            s = lp.KnapsackORTools(m, None)
            s.init_model()
            rs = s.solve()
        else:
            s = lp.LPKnapsack(m, MilpSolverName.CBC)
            s.init_model(warm_start=start)
            mipsub.LOG.clear()
            p = ParametersMilp.default()
            p.retrieve_all_solution = rng.random() < 0.7
            rs = s.solve(p)
            if start:
                run.check(mipsub.LOG[-1]['start'] is True, 'lp:warm-start', lambda: f'{mipsub.LOG} {info}')
            run.hit('lp:pool', int(len(rs.list_solution_fits) > 1))
        run.check(isinstance(s.describe_the_model(), str) if kind != 'ortools' else True, 'lp:describe')
    storage(run, I, rs, 'lp-' + kind, optimal=True, info=info)
    run.case((info, kind, repr(start)), len(items) > 1)


def mzn_dir():
    from vk.mzn import narrowed
    global _tmp
    if _tmp is None:
        _tmp = narrowed(os.path.join(os.path.dirname(km.__file__), 'minizinc'), 'include "all_different.mzn";')
        cp.map_cp_solver_name = {k: 'gecode' for k in cp.map_cp_solver_name}
        cp.this_path = os.path.join(_tmp, 'solvers')


def params_cp(rng):
    p = ParametersCP.default()
    p.TimeLimit = p.TimeLimit_iter0 = 600
    p.intermediate_solution = rng.random() < 0.5
    return p


def g_cp(run, rng):
    mzn_dir()
    I = inst(rng, 1, 6)
    items, cap, m = I
    info = f'{items} capacity {cap}'
    cls = rng.choice([cp.CPKnapsackMZN, cp.CPKnapsackMZN2])
    p = params_cp(rng)
    with quiet():
        s = cls(m, cp_solver_name=CPSolverName.GECODE)
        s.init_model()
        how = rng.choice(['positional', 'keyword'])
        rs = s.solve(p) if how == 'positional' else s.solve(parameters_cp=p)
    run.hit('cp')
    run.check(p.intermediate_solution or len(rs.list_solution_fits) == 1, 'cp:one-solution-asked', lambda: f'{cls.__name__} {how} {len(rs.list_solution_fits)}')
    storage(run, I, rs, 'cp-' + cls.__name__, optimal=True, info=f'{info} intermediate {p.intermediate_solution}')
    if cls is cp.CPKnapsackMZN2 and rng.random() < 0.5:
        g = gs.best_of_greedy(m)
        with quiet():
            l, res = s.solve_lns(g, rng.choice([0, 0.3, 0.7]), rng.randint(1, 3), 600)
        v = consistent(run, I, l[0], 'cp-lns', info)
        run.check(v is None or g.value <= v <= optimum(I), 'cp-lns:worse', lambda: f'{v} {g.value}')
        run.hit('cp:lns')
        run.check(len(res['objective']) == len(res['weight']) == len(res['taken']), 'cp-lns:history')
        for t, o, w in zip(res['taken'], res['objective'], res['weight']):
            run.check((o, w) == tot(items, t), 'cp-lns:history', lambda: f'{t} {o} {w} {info}')
    run.case((info, cls.__name__, p.intermediate_solution, how), len(items) > 1)


def g_lns(run, rng):
    I = inst(rng, 3, 7)
    items, cap, m = I
    info = f'{items} capacity {cap}'
    run.hit('lns')
    method = rng.choice(list(lnslp.InitialKnapsackMethod))
    p = get_default_objective_setup(m)
    frac = rng.choice([0.0, 0.3, 0.6, 0.9, 1.0])
    its = rng.randint(1, 4)
    with quiet():
        init = lnslp.InitialKnapsackSolution(m, method, p)
        st = init.get_starting_solution()
    v0 = storage(run, I, st, 'lns-start', info=info)
    run.check(v0 is None or v0 == (0 if method == lnslp.InitialKnapsackMethod.DUMMY else gs.best_of_greedy(m).value), 'lns-start:value')
    seen = []
    if rng.random() < 0.5:
        mzn_dir()
        with quiet():
            solver = cp.CPKnapsackMZN2(m, cp_solver_name=CPSolverName.GECODE)
            solver.init_model()
            h = lnscp.ConstraintHandlerKnapsack(m, frac)

            class Spy:
                def adding_constraint_from_results_store(self, cp_solver, child_instance, result_storage):
                    c = ints(result_storage.get_best_solution_fit()[0].list_taken)
                    r = h.adding_constraint_from_results_store(cp_solver, child_instance, result_storage)
                    seen.append([c, len(list(r)), None])
                    return r

                def remove_constraints_from_previous_iteration(self, *a, **k):
                    return h.remove_constraints_from_previous_iteration(*a, **k)

            class Post:
                def build_other_solution(self, rs):
                    seen[-1][2] = [ints(s.list_taken) for s, _ in rs.list_solution_fits]
                    return rs
            rs = LNS_CP(m, solver, init, Spy(), post_process_solution=Post(), params_objective_function=p).solve_lns(params_cp(rng), its)
        name = 'lns-cp'
    else:
        with quiet():
            solver = lp.LPKnapsack(m, MilpSolverName.CBC)
            solver.init_model()
            n0 = len(solver.model.constrs)
            h = lnslp.ConstraintHandlerKnapsack(m, frac)

            class Spy2:
                def adding_constraint_from_results_store(self, milp_solver, result_storage):
                    c = ints(result_storage.get_best_solution_fit()[0].list_taken)
                    r = h.adding_constraint_from_results_store(milp_solver, result_storage)
                    seen.append([c, len(r), None])
                    run.check(len(milp_solver.model.constrs) == n0 + len(r), 'lns-lp:constraints')
                    return r

                def remove_constraints_from_previous_iteration(self, milp_solver, previous_constraints):
                    h.remove_constraints_from_previous_iteration(milp_solver, previous_constraints)
                    run.check(len(milp_solver.model.constrs) == n0, 'lns-lp:constraints-left')

            class Post2:
                def build_other_solution(self, rs):
                    seen[-1][2] = [ints(s.list_taken) for s, _ in rs.list_solution_fits]
                    return rs
            mipsub.LOG.clear()
            rs = LNS_MILP(m, solver, init, Spy2(), post_process_solution=Post2(), params_objective_function=p).solve_lns(ParametersMilp.default(), its)
        run.check(all(e['start'] is True for e in mipsub.LOG) and len(mipsub.LOG) == its, 'lns-lp:start-solution', lambda: f'{mipsub.LOG} {info}')
        name = 'lns-lp'
    v = storage(run, I, rs, name, info=info)
    solved = [s for s in seen if s[2] is not None]
    run.check(len(solved) == its, name + ':iterations', lambda: f'{len(solved)} of {its} {info}')
    for centre, k, out in solved:
        run.eq(k, int(frac * len(items)), name + ':fixed')
        for o in out:
            run.check(sum(a == b for a, b in zip(o, centre)) >= k, name + ':neighbourhood', lambda: f'{o} around {centre} {k} {info}')
    if v is not None and v0 is not None:
        run.check(v0 <= v <= optimum(I), name + ':worse-than-start', lambda: f'{v} {v0} {optimum(I)} {info}')
        best = max([tot(items, o)[0] for s in solved for o in s[2]] + [v0])
        run.check(near(v, best), name + ':best-lost', lambda: f'{v} {best}')
        if frac == 0:
            run.check(near(v, optimum(I)), name + ':optimal', lambda: f'{v} want {optimum(I)} {info}')
    run.case((info, method, frac, name), True)


def g_dispatch(run, rng):
    mzn_dir()
    lp.pywrapknapsack_solver = _Mod
    I = inst(rng, 1, 6)
    items, cap, m = I
    opts = []
    for fam in ks.solvers:
        for entry in ks.solvers[fam]:
            run.check(len(entry) == 2 and isinstance(entry[1], dict), 'dispatch:table', lambda: f'{fam} {entry}')
            if 'Gurobi' not in entry[0].__name__:
                opts.append(entry)
    run.check({c.__name__ for c, _ in opts} >= {'KnapsackORTools', 'LPKnapsackCBC', 'LPKnapsack', 'GreedyBest', 'CPKnapsackMZN', 'CPKnapsackMZN2', 'KnapsackDynProg'}, 'dispatch:all', lambda: str(opts))
    c, kw = rng.choice(opts)[:2]
    kw = dict(kw)
    with quiet():
        rs = ks.solve(c, m, **kw)
    run.hit('dispatch')
    storage(run, I, rs, 'dispatch-' + c.__name__, optimal=c.__name__ != 'GreedyBest', info=f'{items} {cap}')
    run.case((c.__name__, repr(items), cap), True)


GROUPS = [('model', g_model, 800, 12000), ('parse', g_parse, 120, 1500), ('moves', g_moves, 500, 8000), ('climb', g_climb, 60, 800), ('ga', g_ga, 6, 60, 200_000_000), ('greedy', g_greedy, 400, 6000), ('dyn', g_dyn, 400, 6000), ('lp', g_lp, 160, 2000, 200_000_000), ('cp', g_cp, 40, 400, 200_000_000),
          ('lns', g_lns, 24, 300, 200_000_000), ('dispatch', g_dispatch, 50, 500, 200_000_000)]

"""C27 Facility location: assignments, costs and solvers agree with the sites."""
import itertools
import math
import os
import shutil
import tempfile
import warnings

import numpy as np

from vk.dostubs import quiet, install, empty_data_dirs

install()
warnings.filterwarnings('ignore')
from vk import mipsub
from vk.mzn import narrowed
mipsub.install(memory=True)
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.facility import facility_model as fm, facility_parser as fp
    from skdecide.builders.discrete_optimization.facility.solvers import facility_cp_solvers as cp, facility_lp_solver as lp, facility_lp_lns_solver as lplns, greedy_solvers as gs
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, ModeOptim, ObjectiveHandling
    from skdecide.builders.discrete_optimization.generic_tools.ls import local_search as ls, hill_climber as hc
    from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp, MilpSolverName
    from skdecide.builders.discrete_optimization.generic_tools.lns_mip import LNS_MILP
    from skdecide.builders.discrete_optimization.generic_tools.ea.ga import Ga

RULE = 'random instances of 1 to 4 facilities and 1 to 6 customers (integer or real places, equal places, zero and equal setup costs, tight and loose capacities, customers of equal or different demand), random assignments within and beyond capacities, edit and move histories, solver parameters; non-trivial = at least two facilities and two customers'
REQUIRED = {'model': 500, 'model:overloaded': 150, 'model:overloaded-not-last': 60, 'model:feasible': 100, 'edit': 300, 'parse': 80, 'move': 600, 'climb': 25, 'ga': 4, 'greedy': 150, 'greedy:several': 50, 'greedy:skip': 3, 'matrix': 200, 'matrix:pruned': 60, 'lp': 60, 'lp:pruned': 15, 'cbc': 50, 'cp': 40, 'cp:rounded': 15,
            'lns': 25, 'lns:improved': 4, 'lns:pruned-start': 1, 'own-lns:mip': 8, 'own-lns:cbc': 8, 'own-lns:cp': 8, 'own-lns:fixed': 6}
ASSUMPTIONS = ['demands are positive integers, capacities integers', 'the CP model minimises setup costs and distances rounded down, as it states', 'MiniZinc models are solved by Gecode instead of the absent Chuffed and, for python-mip, HiGHS replaces the bundled CBC that crashes here', 'exact solvers are run on instances with a feasible assignment within the pruned pairs']


class _Solver:
    """Chuffed is not installed: Gecode answers instead."""
    @staticmethod
    def lookup(name):
        return _real.lookup('gecode' if name == 'chuffed' else name)


_real = cp.Solver
_tmp = None


def mzn_dir():
    global _tmp
    if _tmp is None:
        _tmp = narrowed(cp.path_minizinc, '')
        cp.path_minizinc = os.path.join(_tmp, 'minizinc')
        cp.Solver = _Solver


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(b)))


class Inst:
    def __init__(self, rng, lo=1, lf=1, hf=4, hc_=6, feasible=False, integer=None):
        while True:
            self.nf, self.nc = rng.randint(lf, hf), rng.randint(lo, hc_)
            self.integer = rng.random() < 0.5 if integer is None else integer
            span = rng.choice([9, 9, 2.5])
            line = self.integer and rng.random() < 0.6
            pt = lambda: fm.Point(rng.randint(0, 9), 0 if line else rng.randint(0, 6)) if self.integer else fm.Point(round(rng.uniform(0, span), 3), round(rng.uniform(0, span), 3))
            dem = rng.choice([(1, 1), (1, 4), (2, 9)])
            self.dem = [rng.randint(*dem) for _ in range(self.nc)]
            tot = sum(self.dem)
            style = rng.choice(['loose', 'tight', 'mixed', 'equal'])
            one = max(max(self.dem), math.ceil(tot / self.nf))
            self.cap = [{'loose': tot + 1, 'tight': rng.randint(max(1, min(self.dem)), one), 'mixed': rng.randint(1, tot + 2), 'equal': one}[style] for _ in range(self.nf)]
            free = rng.random() < 0.15
            same = rng.random() < 0.2
            s = rng.randint(0, 20)
            self.setup = [0.0 if free else float(s) if same else float(rng.randint(0, 20)) if self.integer else round(rng.uniform(0, 20 if span == 9 else 2), 3) for _ in range(self.nf)]
            self.fp, self.cp = [pt() for _ in range(self.nf)], [pt() for _ in range(self.nc)]
            distinct = rng.random() < 0.85         # else: equal records stand for several customers
            if not distinct and self.nc > 1:
                for _ in range(rng.randint(1, self.nc)):
                    i, j = rng.randrange(self.nc), rng.randrange(self.nc)
                    self.dem[i], self.cp[i] = self.dem[j], self.cp[j]
            self.d = [[math.hypot(a.x - b.x, a.y - b.y) for b in self.cp] for a in self.fp]
            self._all = None
            if not feasible or self.best() is not None:
                break
        self.m = fm.FacilityProblem2DPoints(self.nf, self.nc, [fm.Facility(i, self.setup[i], self.cap[i], self.fp[i]) for i in range(self.nf)], [fm.Customer(i if distinct else 0, self.dem[i], self.cp[i]) for i in range(self.nc)])

    def cost(self, a, floor=False):
        r = math.floor if floor else float
        return sum(r(self.d[f][c] + (1e-12 if floor and abs(self.d[f][c] - round(self.d[f][c])) < 1e-9 else 0)) for c, f in enumerate(a)), sum(r(self.setup[f]) for f in set(a))

    def over(self, a):
        use = [sum(self.dem[c] for c in range(self.nc) if a[c] == f) for f in range(self.nf)]
        return [max(0, use[f] - self.cap[f]) for f in range(self.nf)], use

    def fitness(self, a):
        c, s = self.cost(a)
        return -c - s - 10000 * sum(self.over(a)[0])

    def best(self, allowed=None, floor=False, fixed=None):
        if self._all is None:
            self._all = [a for a in itertools.product(range(self.nf), repeat=self.nc) if sum(self.over(a)[0]) == 0]
        l = [sum(self.cost(a, floor)) for a in self._all if (allowed is None or all(allowed[f][c] for c, f in enumerate(a))) and (fixed is None or all(a[c] == f for c, f in fixed.items()))]
        return min(l) if l else None

    def __repr__(self):
        return f'setup {self.setup} capacities {self.cap} at {[tuple(p) for p in self.fp]} demands {self.dem} at {[tuple(p) for p in self.cp]}'


def ints(l):
    return [int(x) for x in l]


def good(run, I, e, a, mech, info=''):
    c, s = I.cost(a)
    o = sum(I.over(a)[0])
    return run.check(near(e['cost'], c) and near(e['setup_cost'], s) and near(e['capacity_constraint_violation'], o), mech, lambda: f"{[e.get(k) for k in ('cost', 'setup_cost', 'capacity_constraint_violation')]} want {c, s, o} {a} {I} {info}")


def legal(run, I, sol, mech, info=''):
    a = ints(sol.facility_for_customers)
    return run.check(len(a) == I.nc and all(0 <= f < I.nf for f in a), mech + ':assignment', lambda: f'{a} {I} {info}')


def feasible(run, I, sol, mech, info=''):
    if not legal(run, I, sol, mech, info):
        return None
    a = ints(sol.facility_for_customers)
    if not run.check(sum(I.over(a)[0]) == 0, mech + ':capacity', lambda: f'{a} {I} {info}'):
        return None
    run.check(I.m.satisfy(sol), mech + ':satisfy')
    good(run, I, I.m.evaluate(sol), a, mech + ':evaluation', info)
    return sum(I.cost(a))


def storage(run, I, rs, mech, info=''):
    if not run.check(len(rs.list_solution_fits) > 0, mech + ':empty', lambda: f'{I} {info}'):
        return None
    out = []
    for s, f in rs.list_solution_fits:
        k = feasible(run, I, s, mech, info)
        if k is None:
            return None
        run.check(near(f, -k), mech + ':fitness', lambda: f'{f} want {-k} {info}')
        out.append(k)
    b, f = rs.get_best_solution_fit()
    run.check(near(f, -min(out)), mech + ':best', lambda: f'{f} {out}')
    return min(out)


# ------------------------------------------------------------------------------------------- model

def g_model(run, rng):
    I = Inst(rng)
    m = I.m
    style = rng.choice(['any', 'any', 'one', 'feasible'])
    a = [rng.randrange(I.nf) for _ in range(I.nc)]
    if style == 'one':
        a = [rng.randrange(I.nf)] * I.nc
    elif style == 'feasible' and I.best() is not None:
        a = list(rng.choice(I._all))
    over, use = I.over(a)
    run.hit('model')
    run.hit('model:overloaded', int(sum(over) > 0))
    order = list(dict.fromkeys(a))
    run.hit('model:overloaded-not-last', int(sum(over) > 0 and over[order[-1]] == 0))
    run.hit('model:feasible', int(sum(over) == 0))
    sol = fm.FacilitySolution(m, np.array(a) if rng.random() < 0.2 else list(a))
    info = f'{I} {a}'
    e = m.evaluate(sol)
    good(run, I, e, a, 'model:evaluate')
    run.check(bool(m.satisfy(sol)) == (sum(over) == 0), 'model:satisfy', lambda: info)
    good(run, I, m.evaluate(sol), a, 'model:evaluate-again')
    good(run, I, m.evaluate_from_encoding(list(a), 'facility_for_customers'), a, 'model:encoding')
    det = e['details']
    run.check(set(det) == set(a), 'model:details', lambda: info)
    for f in set(a):
        cs = {c for c in range(I.nc) if a[c] == f}
        run.check(det[f]['customers'] == cs and near(det[f]['capacity_used'], use[f]) and near(det[f]['cost'], sum(I.d[f][c] for c in cs)) and near(det[f]['setup_cost'], I.setup[f]), 'model:details', lambda: f'{f} {det[f]} {info}')
    par = get_default_objective_setup(m)
    run.check(par.sense_function == ModeOptim.MAXIMIZATION, 'model:sense')
    g = gs.GreedySolverFacility(m)
    run.check(near(g.aggreg_sol(sol), I.fitness(a)), 'model:fitness', lambda: f'{g.aggreg_sol(sol)} {I.fitness(a)} {info}')
    reg = m.get_attribute_register().dict_attribute_to_type['facility_for_customers']
    run.check(reg['n'] == I.nc and reg['arrity'] == I.nf and m.get_solution_type() is fm.FacilitySolution, 'model:register')
    run.check(set(m.get_objective_register().dict_objective_to_doc) <= set(e), 'model:objectives')
    d = m.get_dummy_solution()
    if legal(run, I, d, 'model:dummy'):
        good(run, I, m.evaluate(d), ints(d.facility_for_customers), 'model:dummy')
    x, l = sol.copy(), sol.lazy_copy()
    run.check(ints(x.facility_for_customers) == a == ints(l.facility_for_customers) and x.problem is m, 'copy')
    good(run, I, m.evaluate(l), a, 'copy:evaluate')
    c = rng.randrange(I.nc)
    b = list(a)
    b[c] = rng.randrange(I.nf)
    x.facility_for_customers[c] = b[c]
    run.check(ints(sol.facility_for_customers) == a, 'copy:aliasing')
    run.hit('edit')
    good(run, I, m.evaluate(x), b, 'edit')
    run.check(bool(m.satisfy(x)) == (sum(I.over(b)[0]) == 0), 'edit:satisfy')
    good(run, I, m.evaluate(sol), a, 'edit-original')
    # another problem with as many customers
    J = Inst(rng)
    J.nc = I.nc
    J.dem = [rng.randint(1, 5) for _ in range(I.nc)]
    J.cp = [fm.Point(rng.randint(0, 9), rng.randint(0, 9)) for _ in range(I.nc)]
    J.fp, J.cap, J.setup = [(J.fp[f % J.nf]) for f in range(I.nf)], [J.cap[f % J.nf] for f in range(I.nf)], [J.setup[f % J.nf] for f in range(I.nf)]
    J.nf = I.nf
    J.d = [[math.hypot(p.x - q.x, p.y - q.y) for q in J.cp] for p in J.fp]
    J.m = fm.FacilityProblem2DPoints(J.nf, J.nc, [fm.Facility(i, J.setup[i], J.cap[i], J.fp[i]) for i in range(J.nf)], [fm.Customer(i, J.dem[i], J.cp[i]) for i in range(J.nc)])
    z = fm.FacilitySolution(m, list(a), dict_details=m.evaluate(sol) if rng.random() < 0.5 else None)
    z.change_problem(J.m)
    run.check(z.problem is J.m, 'change-problem')
    good(run, J, J.m.evaluate(z), a, 'change-problem')
    # matrices
    run.hit('matrix')
    costs, closest, M = lp.compute_length_matrix(m)
    run.check(M.shape == (I.nf, I.nc) and all(near(M[f, k], I.d[f][k]) for f in range(I.nf) for k in range(I.nc)) and ints(np.round(1000 * np.array(costs))) == ints(np.round(1000 * np.array(I.setup))), 'matrix:lengths', lambda: info)
    run.check(all(sorted(ints(closest[:, k])) == list(range(I.nf)) and all(M[closest[i, k], k] <= M[closest[i + 1, k], k] for i in range(I.nf - 1)) for k in range(I.nc)), 'matrix:closest', lambda: info)
    nch, nsh = rng.randint(1, I.nf), rng.randint(1, I.nf)
    ok, _ = lp.prune_search_space(m, n_cheapest=nch, n_shortest=nsh)
    run.hit('matrix:pruned', int((ok == 0).any()))
    pruned_ok(run, I, ok, nch, nsh)
    run.case(info, I.nf > 1 and I.nc > 1)


def pruned_ok(run, I, ok, nch, nsh):
    for f in range(I.nf):
        cheap = sum(I.setup[g] < I.setup[f] - 1e-9 for g in range(I.nf))          # strictly cheaper ones
        cheap_eq = sum(I.setup[g] <= I.setup[f] + 1e-9 for g in range(I.nf))
        for c in range(I.nc):
            close = sum(I.d[g][c] < I.d[f][c] - 1e-9 for g in range(I.nf))
            close_eq = sum(I.d[g][c] <= I.d[f][c] + 1e-9 for g in range(I.nf))
            must = cheap_eq <= nch or close_eq <= nsh
            may = cheap < nch or close < nsh
            run.check(ok[f, c] == 2 if must else may or ok[f, c] == 0, 'matrix:prune', lambda: f'{f} {c} {ok.tolist()} cheapest {nch} closest {nsh} {I}')


def g_parse(run, rng):
    I = Inst(rng)
    fmt = (lambda x: str(x)) if rng.random() < 0.7 else (lambda x: f'{x:.4f}')
    text = f'{I.nf} {I.nc}\n' + '\n'.join(f'{fmt(I.setup[f])} {I.cap[f]} {fmt(I.fp[f].x)} {fmt(I.fp[f].y)}' for f in range(I.nf)) + '\n' + '\n'.join(f'{I.dem[c]} {fmt(I.cp[c].x)} {fmt(I.cp[c].y)}' for c in range(I.nc)) + rng.choice(['', '\n', '\n\n'])
    d = tempfile.mkdtemp(prefix='vkfl')
    try:
        f = os.path.join(d, 'fl_x')
        open(f, 'w').write(text)
        ms = [fp.parse(text), fp.parse_file(f)]
    finally:
        shutil.rmtree(d)
    run.hit('parse')
    a = [rng.randrange(I.nf) for _ in range(I.nc)]
    for m in ms:
        run.check(m.facility_count == I.nf and m.customer_count == I.nc and [x.capacity for x in m.facilities] == I.cap and [x.demand for x in m.customers] == I.dem and [x.index for x in m.facilities] == list(range(I.nf)) and [x.index for x in m.customers] == list(range(I.nc)), 'parse', lambda: repr(text))
        good(run, I, m.evaluate(fm.FacilitySolution(m, list(a))), a, 'parse:evaluate', repr(text))
    run.case(text, I.nf > 1)


# ------------------------------------------------------------------------------------------- search

def mutation(rng, I):
    # this mutation draws from 1 to the arity
    return MutationIntegerSpecificArrity(I.m, 'facility_for_customers', [I.nf - 1] * I.nc, rng.choice([0.1, 0.4, 1.0]))


def g_moves(run, rng):
    I = Inst(rng, lf=2)
    sol = fm.FacilitySolution(I.m, [rng.randrange(I.nf) for _ in range(I.nc)])
    mut = mutation(rng, I)
    for _ in range(rng.randint(3, 10)):
        before = ints(sol.facility_for_customers)
        with quiet():
            sol, move, f = mut.mutate_and_compute_obj(sol) if rng.random() < 0.5 else (*mut.mutate(sol), None)
        run.hit('move')
        legal(run, I, sol, 'move')
        after = ints(sol.facility_for_customers)
        good(run, I, I.m.evaluate(sol), after, 'move:evaluate')
        if f is not None:
            good(run, I, f, after, 'move:objectives')
        if rng.random() < 0.5:
            sol = move.backtrack_local_move(sol)
            run.check(ints(sol.facility_for_customers) == before, 'move:undo')
            good(run, I, I.m.evaluate(sol), before, 'move:undo-evaluate')
    run.case(repr(I), True)


def g_climb(run, rng):
    I = Inst(rng, lo=2, lf=2)
    start = [rng.randrange(I.nf) for _ in range(I.nc)]
    with quiet():
        rs = hc.HillClimber(evaluator=I.m, mutator=mutation(rng, I), restart_handler=ls.RestartHandler(), mode_mutation=rng.choice(list(ls.ModeMutation)), params_objective_function=get_default_objective_setup(I.m), store_solution=True).solve(fm.FacilitySolution(I.m, list(start)), nb_iteration_max=80)
    run.hit('climb')
    for x, f in rs.list_solution_fits:
        run.check(near(f, I.fitness(ints(x.facility_for_customers))), 'climb:stored', lambda: f'{f} {x.facility_for_customers} {I}')
    b, f = rs.get_best_solution_fit()
    run.check(f >= I.fitness(start) - 1e-6, 'climb:worse-than-start', lambda: f'{f} {I}')
    run.case(repr(I), True)


def g_ga(run, rng):
    I = Inst(rng, lo=2, lf=2)
    with quiet():
        rs = Ga(I.m, encoding=rng.choice(['facility_for_customers', None]), objective_handling=ObjectiveHandling.AGGREGATE, objectives=['cost', 'setup_cost', 'capacity_constraint_violation'], objective_weights=[-1, -1, -10000], max_evals=200).solve()
    run.hit('ga')
    b, f = rs.get_best_solution_fit()
    if legal(run, I, b, 'ga'):
        run.check(near(f, I.fitness(ints(b.facility_for_customers))), 'ga:fitness', lambda: f'{f} {b.facility_for_customers} {I}')
    run.case(repr(I), True)


# ------------------------------------------------------------------------------------------- solvers

def fill(I, dem=None):
    """Fill the facilities one after the other: (possible, skipped a facility that cannot take the next customer)."""
    f, rem, skip = 0, list(I.cap), False
    for d in I.dem:
        k = 0
        while f < I.nf and rem[f] < d:
            f += 1
            k += 1
        if f == I.nf:
            return False, skip
        skip = skip or k > 1
        rem[f] -= d
    return True, skip


def g_greedy(run, rng):
    I = Inst(rng)
    ok, skip = fill(I)
    if not ok:
        run.case(repr(I), False)
        return
    s = gs.GreedySolverFacility(I.m, rng.choice([None, get_default_objective_setup(I.m)]))
    with quiet():
        rs = s.solve()
    storage(run, I, rs, 'greedy')
    run.hit('greedy')
    run.hit('greedy:skip', int(skip))
    run.hit('greedy:several', int(len(set(rs.get_best_solution().facility_for_customers)) > 1))
    run.case(repr(I), I.nf > 1 and I.nc > 1)


def lp_args(rng, I):
    use = rng.random() < 0.6
    kw = {'use_matrix_indicator_heuristic': use} if rng.random() < 0.8 or not use else {}
    allowed = [[True] * I.nc for _ in range(I.nf)]
    if use and rng.random() < 0.7:
        kw.update(n_shortest=rng.randint(1, I.nf), n_cheapest=rng.randint(1, I.nf))
        M, _ = lp.prune_search_space(I.m, n_cheapest=kw['n_cheapest'], n_shortest=kw['n_shortest'])
        allowed = (M > 0).tolist()
    return kw, allowed


def g_lp(run, rng):
    I = Inst(rng, feasible=True)
    kw, allowed = lp_args(rng, I)
    want = I.best(allowed)
    if want is None:
        run.case(repr(I), False)
        return
    pruned = not all(map(all, allowed))
    info = f'{kw}'
    if rng.random() < 0.5:
        run.hit('lp')
        run.hit('lp:pruned', int(pruned))
        with quiet():
            s = lp.LP_Facility_Solver_PyMip(I.m, MilpSolverName.CBC, rng.choice([None, get_default_objective_setup(I.m)]))
            if rng.random() < 0.5:
                s.init_model(**kw)
                rs = s.solve(ParametersMilp.default())
            else:
                rs = s.solve(parameters_milp=ParametersMilp.default(), **kw)
        k = storage(run, I, rs, 'lp', info)
        sol = rs.get_best_solution()
        name = 'lp'
    else:
        run.hit('cbc')
        with quiet():
            s = lp.LP_Facility_Solver_CBC(I.m, None)
            sol, fit = s.solve(**kw)
        k = feasible(run, I, sol, 'cbc', info)
        good(run, I, fit, ints(sol.facility_for_customers), 'cbc:fit', info)
        name = 'cbc'
    if k is not None:
        run.check(all(allowed[f][c] for c, f in enumerate(ints(sol.facility_for_customers))), name + ':pruned-pair', lambda: f'{sol.facility_for_customers} {allowed} {I}')
        run.check(near(k, want), name + ':optimal', lambda: f'{k} want {want} {info} {I}')
    run.case((repr(I), info), I.nf > 1)


def g_cp(run, rng):
    mzn_dir()
    I = Inst(rng, hc_=5, feasible=True)
    with quiet():
        s = cp.FacilityCP(I.m, rng.choice([None, get_default_objective_setup(I.m)]))
        if rng.random() < 0.5:
            s.init_model()
        sol, fit = s.solve(limit_time_s=600)
    run.hit('cp')
    k = feasible(run, I, sol, 'cp')
    if k is not None:
        a = ints(sol.facility_for_customers)
        good(run, I, fit, a, 'cp:fit')
        kr, want = sum(I.cost(a, True)), I.best(floor=True)
        run.hit('cp:rounded', int(any(abs(x - round(x)) > 1e-9 for r in I.d for x in r)))
        run.check(kr == want, 'cp:optimal', lambda: f'{a} {kr} want {want} {I}')
    run.case(repr(I), I.nf > 1)


def g_own_lns(run, rng):
    I = Inst(rng, lo=2, feasible=True)
    greedy = rng.random() < 0.6
    if greedy and not fill(I)[0] or not greedy and sum(I.over([0] * I.nc)[0]):
        run.case(repr(I), False)
        return
    frac, n_it = rng.choice([0.0, 0.4, 0.8, 1.0]), rng.randint(1, 3)
    kw = dict(fraction_to_fix=frac, nb_iteration=n_it, greedy_start=greedy)
    f, a0 = 0, []
    rem = list(I.cap)
    for d in I.dem:
        while greedy and rem[f] < d:
            f += 1
        a0.append(f)
        rem[f] -= d
    k0 = sum(I.cost(a0))
    kind = rng.choice(['mip', 'cbc', 'cp'])
    info = f'{kind} {kw}'
    run.hit('own-lns:' + kind)
    with quiet():
        if kind == 'cp':
            mzn_dir()
            sol, fit = cp.FacilityCP(I.m, None).solve_lns(limit_time_s=600, **kw)
        else:
            first = rng.choice([0.0, 1.0])
            kw['fraction_to_fix_first_iter'] = first
            kw['use_matrix_indicator_heuristic'] = False
            if kind == 'mip':
                r = lp.LP_Facility_Solver_PyMip(I.m, MilpSolverName.CBC, None).solve_lns(parameters_milp=ParametersMilp.default(), **kw)
            else:
                r = lp.LP_Facility_Solver_CBC(I.m, None).solve_lns(**kw)
            sol, fit = r
    name = 'own-lns-' + kind
    k = feasible(run, I, sol, name, info)
    if k is not None:
        a = ints(sol.facility_for_customers)
        if isinstance(fit, dict):
            good(run, I, fit, a, name + ':fit', info)
        else:
            run.check(near(fit, -k), name + ':fit', lambda: f'{fit} {k}')
        run.check(k <= k0 + 1e-6, name + ':worse', lambda: f'{a} {k} from {a0} {k0} {info} {I}')
        everything = frac == 0.0 and (n_it > 1 or kind == 'cp') or kind != 'cp' and kw['fraction_to_fix_first_iter'] == 0.0
        if everything and kind != 'cp':
            run.check(near(k, I.best()), name + ':optimal', lambda: f'{a} {k} want {I.best()} {info} {I}')
        if everything and kind == 'cp' and I.integer:
            run.check(k <= I.best(floor=True) + I.nc, name + ':optimal', lambda: f'{a} {k} {info} {I}')
        if frac == 1.0 and (kind == 'cp' or kw['fraction_to_fix_first_iter'] == 1.0):
            run.hit('own-lns:fixed')
            run.check(a == a0, name + ':neighbourhood', lambda: f'{a} from {a0} {info} {I}')
    run.case((repr(I), info), True)


def g_lns(run, rng):
    I = Inst(rng, lo=2, lf=2, feasible=True)
    m = I.m
    par = get_default_objective_setup(m)
    ok = fill(I)[0]
    method = rng.choice(list(lplns.InitialFacilityMethod)) if ok else lplns.InitialFacilityMethod.DUMMY
    frac = rng.choice([0.0, 0.4, 0.8, 1.0])
    skip = rng.random() < 0.5
    its = rng.randint(1, 3)
    kw, allowed = lp_args(rng, I)
    if rng.random() < 0.5:
        skip = False
    if method.name == 'DUMMY' and sum(I.over([0] * I.nc)[0]):
        skip, its = True, 1             # nothing fixed around an overloaded start
    want = I.best(allowed)
    if want is None:
        run.case(repr(I), False)
        return
    seen = []
    info = f'{method} fraction {frac} skip {skip} {kw}'
    with quiet():
        st = lplns.InitialFacilitySolution(m, method, par).get_starting_solution()
        b0, f0 = st.get_best_solution_fit()
        a0 = ints(b0.facility_for_customers)
        if not legal(run, I, b0, 'lns-start'):
            return
        run.check(near(f0, I.fitness(a0)), 'lns-start:fitness', lambda: f'{f0} {a0} {I}')
        gone = [c for c, f in enumerate(a0) if not allowed[f][c]]
        if gone and I.best(allowed, fixed={c: f for c, f in enumerate(a0) if c not in gone}) is None:
            skip, its = True, 1         # the others leave no room for customers whose pair was pruned
        run.hit('lns:pruned-start', int(bool(gone) and not skip and frac > 0))

        class Init:
            def get_starting_solution(self):
                return st
        solver = lp.LP_Facility_Solver_PyMip(m, MilpSolverName.CBC, par)
        solver.init_model(**kw)
        n0 = len(solver.model.constrs)
        h = lplns.ConstraintHandlerFacility(m, frac, skip)

        class Spy:
            def adding_constraint_from_results_store(self, milp_solver, result_storage):
                seen.append([ints(result_storage.get_best_solution_fit()[0].facility_for_customers), None])
                return h.adding_constraint_from_results_store(milp_solver, result_storage)

            def remove_constraints_from_previous_iteration(self, milp_solver, previous_constraints):
                h.remove_constraints_from_previous_iteration(milp_solver, previous_constraints)
                run.check(len(milp_solver.model.constrs) == n0, 'lns:constraints-left')

        class Post:
            def build_other_solution(self, rs):
                seen[-1][1] = [ints(s.facility_for_customers) for s, _ in rs.list_solution_fits]
                return rs
        rs = LNS_MILP(m, solver, Init(), Spy(), post_process_solution=Post(), params_objective_function=par).solve_lns(ParametersMilp.default(), its)
    run.hit('lns')
    for s, f in rs.list_solution_fits:
        if legal(run, I, s, 'lns', info):
            run.check(near(f, I.fitness(ints(s.facility_for_customers))), 'lns:fitness', lambda: f'{f} {s.facility_for_customers} {I} {info}')
    done = [s for s in seen if s[1] is not None]
    run.check(len(done) == its, 'lns:iterations', lambda: f'{len(done)} of {its} {info}')
    for it, (centre, outs) in enumerate(done):
        # customers served by a pair that was pruned cannot stay
        need = 0 if it == 0 and skip else int(frac * I.nc) - sum(not allowed[f][c] for c, f in enumerate(centre))
        for o in outs:
            run.check(sum(x == y for x, y in zip(centre, o)) >= need, 'lns:neighbourhood', lambda: f'{o} around {centre} {info} {I}')
            run.check(sum(I.over(o)[0]) == 0, 'lns:capacity', lambda: f'{o} around {centre} {info} {I} {allowed}')
    b, f = rs.get_best_solution_fit()
    k = -I.fitness(ints(b.facility_for_customers))
    outs = [-I.fitness(o) for _, os_ in done for o in os_] + [-f0]
    run.check(near(k, min(outs)), 'lns:best-lost', lambda: f'{k} {min(outs)} {info} {I}')
    run.hit('lns:improved', int(k < -f0 - 1e-9))
    if skip or frac == 0.0:
        run.check(k <= want + 1e-6, 'lns:optimal', lambda: f'{k} want {want} {info} {I}')
    run.case((repr(I), info), True)


GROUPS = [('model', g_model, 900, 14000), ('parse', g_parse, 120, 1500), ('moves', g_moves, 150, 2500), ('climb', g_climb, 40, 600), ('ga', g_ga, 6, 60, 200_000_000), ('greedy', g_greedy, 700, 5000), ('lp', g_lp, 400, 2500, 200_000_000), ('cp', g_cp, 60, 500, 200_000_000), ('own-lns', g_own_lns, 120, 700, 200_000_000), ('lns', g_lns, 200, 700, 200_000_000)]

"""C28 Vehicle routing: routes, loads and solvers agree with the customers."""
import itertools
import math
import os
import shutil
import tempfile
import warnings

import numpy as np

from vk.dostubs import quiet, install, empty_data_dirs

install()
warnings.filterwarnings('ignore')
from vk import mipsub
mipsub.install(memory=True)
_cwd = os.getcwd()
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.vrp import vrp_model as vm, vrp_parser as vp, vrp_toolbox as vt
    from skdecide.builders.discrete_optimization.vrp.solver import greedy_vrp as gv, solver_ortools as so, lp_vrp_iterative_pymip as lp
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, ModeOptim
_after = os.getcwd()
os.chdir(_cwd)

RULE = 'random instances of 3 to 7 places and 1 to 3 vehicles (one depot, several depots, different ends; integer or real places, equal places; tight and loose, equal or different capacities), random route sets (complete, partial, repeated, overloaded, empty routes), solver parameters; non-trivial = at least two customers and a vehicle that serves one'
REQUIRED = {'model': 500, 'model:overloaded': 100, 'model:complete': 100, 'model:incomplete': 100, 'model:two-ends': 80, 'model:empty-route': 100, 'edit': 300, 'depots': 200, 'depots:empty-route': 30, 'depots:both-ends': 60, 'parse': 80, 'toolbox': 200, 'greedy': 200, 'greedy:complete': 80, 'greedy:partial': 15, 'stupid': 200, 'ortools': 6, 'lp': 40, 'lp:several-depots': 3, 'lp:lns': 8, 'lp:subtours': 5}
ASSUMPTIONS = ['depots have no demand where solvers other than the greedy one are checked, demands are positive integers and capacities integers', 'the linear solver is given instances in which every vehicle can leave its depot for a customer, which its model requires, and a complete start (or none when the greedy one is complete)', 'HiGHS replaces the bundled CBC that crashes here', 'the OR-tools search is stopped by its number of solutions instead of its clock']


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(b)))


class Inst:
    def __init__(self, rng, lo=3, hi=7, depots=None, vmax=3):
        self.n = rng.randint(lo, hi)
        self.V = rng.randint(1, vmax)
        kind = depots or rng.choice(['one', 'one', 'one', 'several', 'ends', 'mixed'])
        self.kind = kind
        integer = rng.random() < 0.5
        self.pts = [(rng.randint(0, 6), rng.randint(0, 6)) if integer else (round(rng.uniform(0, 9), 3), round(rng.uniform(0, 9), 3)) for _ in range(self.n)]
        if kind == 'one':
            self.s = self.e = [rng.choice([0, 0, self.n - 1])] * self.V
            self.s, self.e = list(self.s), list(self.e)
        elif kind == 'several':
            self.s = [rng.randrange(min(self.n - 1, 2)) for _ in range(self.V)]
            self.e = list(self.s)
        elif kind == 'ends':
            self.s, self.e = [0] * self.V, [1] * self.V
        else:
            self.s, self.e = [rng.randrange(min(self.n - 1, 3)) for _ in range(self.V)], [rng.randrange(min(self.n - 1, 3)) for _ in range(self.V)]
        self.free = [i for i in range(self.n) if i not in self.s + self.e]
        dem = rng.choice([(1, 1), (1, 4), (2, 9)])
        self.dem = [rng.randint(*dem) if i in self.free else 0 for i in range(self.n)]
        tot = sum(self.dem)
        one = max(max(self.dem), math.ceil(tot / self.V))
        style = rng.choice(['loose', 'tight', 'equal', 'mixed'])
        self.cap = [{'loose': tot + 1, 'tight': rng.randint(max(1, one // 2), one + 1), 'equal': one, 'mixed': rng.randint(1, tot + 1)}[style] for _ in range(self.V)]
        self.m = vm.VrpProblem2D(self.V, list(self.cap), self.n, [vm.Customer2D(i, self.dem[i], *self.pts[i]) for i in range(self.n)], list(self.s), list(self.e))

    def d(self, a, b):
        return math.hypot(self.pts[a][0] - self.pts[b][0], self.pts[a][1] - self.pts[b][1])

    def legs(self, v, p):
        full = [self.s[v], *p, self.e[v]]
        return [self.d(a, b) for a, b in zip(full[:-1], full[1:])]

    def length(self, paths):
        return sum(sum(self.legs(v, p)) for v, p in enumerate(paths))

    def load(self, p):
        return sum(self.dem[c] for c in p)

    def over(self, paths):
        return sum(max(0, self.load(p) - self.cap[v]) for v, p in enumerate(paths))

    def complete(self, paths):
        return sorted(c for p in paths for c in p) == self.free

    def fitness(self, paths):
        return -self.length(paths)     # the declared handling is of one objective: the penalty does not enter

    def best(self, non_empty=()):
        """Length of the shortest complete set of routes within the capacities."""
        F = self.free
        best = [{} for _ in range(self.V)]
        for v in range(self.V):
            for r in range(len(F) + 1):
                for S in itertools.combinations(range(len(F)), r):
                    cs = [F[k] for k in S]
                    if self.load(cs) > self.cap[v] or not cs and v in non_empty:
                        continue
                    best[v][sum(1 << k for k in S)] = min(sum(self.legs(v, p)) for p in itertools.permutations(cs))
        full = (1 << len(F)) - 1
        cur = {0: 0.0}
        for v in range(self.V):
            nxt = {}
            for a, x in cur.items():
                for b, y in best[v].items():
                    if a & b == 0 and x + y < nxt.get(a | b, math.inf):
                        nxt[a | b] = x + y
            cur = nxt
        return cur.get(full)

    def __repr__(self):
        return f'{self.pts} from {self.s} to {self.e} demands {self.dem} capacities {self.cap}'


def paths_of(sol):
    return [[int(c) for c in p] for p in sol.list_paths]


def sol_of(I, paths):
    return vm.VrpSolution(I.m, list_start_index=I.m.start_indexes, list_end_index=I.m.end_indexes, list_paths=[list(p) for p in paths])


def good(run, I, e, paths, mech, info=''):
    return run.check(near(e['length'], I.length(paths)) and near(e['capacity_violation'], I.over(paths)), mech, lambda: f'{e} want {I.length(paths)},{I.over(paths)} {paths} {I} {info}')


def full(run, I, sol, mech, info=''):
    """Every customer once, loads within capacities, true evaluation."""
    p = paths_of(sol)
    if not run.check(len(p) == I.V and I.complete(p), mech + ':customers', lambda: f'{p} {I} {info}'):
        return None
    if not run.check(I.over(p) == 0, mech + ':capacity', lambda: f'{p} {I} {info}'):
        return None
    run.check(I.m.satisfy(sol), mech + ':satisfy', lambda: f'{p} {I} {info}')
    good(run, I, I.m.evaluate(sol), p, mech + ':evaluation', info)
    return I.length(p)


def random_paths(rng, I):
    style = rng.choice(['complete', 'complete', 'complete', 'missing', 'twice'])
    cs = list(I.free)
    rng.shuffle(cs)
    if style == 'missing' and cs:
        cs.pop()
    elif style == 'twice' and cs:
        cs.append(rng.choice(cs))
    paths = [[] for _ in range(I.V)]
    for c in cs:
        rng.choice(paths).append(c)
    return paths


def g_model(run, rng):
    I = Inst(rng)
    m = I.m
    paths = random_paths(rng, I)
    info = f'{paths} {I}'
    run.hit('model')
    run.hit('model:overloaded', int(I.over(paths) > 0))
    run.hit('model:complete' if I.complete(paths) else 'model:incomplete')
    run.hit('model:two-ends', int(I.s != I.e))
    run.hit('model:empty-route', int(any(not p for p in paths)))
    sol = sol_of(I, paths)
    sat_first = rng.random() < 0.5
    want = I.complete(paths) and I.over(paths) == 0
    if sat_first:
        run.check(bool(m.satisfy(sol)) == want, 'model:satisfy', lambda: f'{m.satisfy(sol)} {info}')
    good(run, I, m.evaluate(sol), paths, 'model:evaluate')
    good(run, I, m.evaluate(sol), paths, 'model:evaluate-again')
    run.check(bool(m.satisfy(sol)) == want, 'model:satisfy', lambda: f'{m.satisfy(sol)} {info}')
    run.check(near(sol.length, I.length(paths)) and [[round(x, 9) for x in l] for l in sol.lengths] == [[round(x, 9) for x in I.legs(v, p)] for v, p in enumerate(paths)], 'model:legs', lambda: f'{sol.lengths} {info}')
    run.check([float(c) for c in sol.capacities] == [float(I.load(p)) for p in paths], 'model:loads', lambda: f'{sol.capacities} {info}')
    for a in range(I.n):
        for b in range(I.n):
            run.check(near(m.evaluate_function_indexes(a, b), I.d(a, b)), 'model:distance')
    g = gv.GreedyVRPSolver(m)
    run.check(g.params_objective_function.sense_function == ModeOptim.MAXIMIZATION and near(g.aggreg_sol(sol_of(I, paths)), I.fitness(paths)), 'model:fitness', lambda: info)
    run.check(m.get_solution_type() is vm.VrpSolution and 'list_paths' in m.get_attribute_register().dict_attribute_to_type, 'model:register')
    run.check(set(m.get_objective_register().dict_objective_to_doc) == set(m.evaluate(sol)), 'model:objectives')
    # the compiled length of one route
    pts = np.array(I.pts, dtype=float)
    for v, p in enumerate(paths):
        if p and rng.random() < 0.3:
            ls, o = vm.compute_length_np(I.s[v], I.e[v], np.array(p), pts)
            run.check(near(o, sum(I.legs(v, p))) and np.allclose(ls, I.legs(v, p)), 'model:compiled', lambda: f'{ls} {o} {info}')
    # copies and edits
    c, l = sol.copy(), sol.lazy_copy()
    run.check(paths_of(c) == paths == paths_of(l) and c.problem is m and list(c.list_start_index) == I.s and list(c.list_end_index) == I.e, 'copy')
    good(run, I, m.evaluate(c), paths, 'copy:evaluate')
    good(run, I, m.evaluate(l), paths, 'copy:evaluate')
    new = [list(p) for p in paths]
    v = rng.randrange(I.V)
    w = rng.randrange(I.V)
    if new[v]:
        x = new[v].pop(rng.randrange(len(new[v])))
        new[w].insert(rng.randint(0, len(new[w])), x)
        y = c.list_paths[v].pop(paths[v].index(x))
        c.list_paths = [list(p) for p in new]
        c.lengths = c.length = c.capacities = None      # asks for a new evaluation
        run.check(paths_of(sol) == paths, 'copy:aliasing', lambda: info)
        run.hit('edit')
        good(run, I, m.evaluate(c), new, 'edit')
        good(run, I, m.evaluate(sol), paths, 'edit-original')
    # the same routes at other places
    J = Inst(rng, lo=I.n, hi=I.n, depots='one')
    J.V, J.s, J.e, J.free, J.dem = I.V, I.s, I.e, I.free, [0 if i not in I.free else rng.randint(1, 5) for i in range(I.n)]
    J.cap = [rng.randint(1, 9) for _ in range(I.V)]
    J.m = vm.VrpProblem2D(J.V, list(J.cap), J.n, [vm.Customer2D(i, J.dem[i], *J.pts[i]) for i in range(J.n)], list(J.s), list(J.e))
    z = sol.copy()
    z.change_problem(J.m)
    run.check(z.problem is J.m, 'change-problem')
    good(run, J, J.m.evaluate(z), paths, 'change-problem')
    run.case(info, len(I.free) > 1 and any(paths))


def g_parse(run, rng):
    I = Inst(rng, depots='one')
    k = rng.choice([None, None, 1, 2, 4])
    fmt = (lambda x: str(x)) if rng.random() < 0.7 else (lambda x: f'{x:.4f}')
    text = f'{I.n} {I.V} {I.cap[0]}\n' + '\n'.join(f'{I.dem[i]} {fmt(I.pts[i][0])} {fmt(I.pts[i][1])}' for i in range(I.n)) + rng.choice(['', '\n', '\n\n'])
    s, e = rng.randrange(I.n), rng.randrange(I.n)
    d = tempfile.mkdtemp(prefix='vkvrp')
    try:
        f = os.path.join(d, 'vrp_x')
        open(f, 'w').write(text)
        ms = [vp.parse_input(text, s, e, k), vp.parse_file(f, start_index=s, end_index=e, vehicle_count=k)]
        if k is None:
            ms.append(vp.parse_input(text))
    finally:
        shutil.rmtree(d)
    run.hit('parse')
    V = I.V if k is None else k
    for j, m in enumerate(ms):
        ss, ee = (s, e) if j < 2 else (0, 0)
        run.check(m.vehicle_count == V and m.vehicle_capacities == [I.cap[0]] * V and m.customer_count == I.n and [c.demand for c in m.customers] == I.dem and all(near(c.x, p[0]) and near(c.y, p[1]) for c, p in zip(m.customers, I.pts)) and m.start_indexes == [ss] * V and m.end_indexes == [ee] * V, 'parse', lambda: repr(text))
    vc, cap, n, cs = vt.parse_input(text)
    run.check((vc, cap, n) == (I.V, I.cap[0], I.n) and [(c.index, c.demand, float(c.x), float(c.y)) for c in cs] == [(i, I.dem[i], float(I.pts[i][0]), float(I.pts[i][1])) for i in range(I.n)] or any('.' in str(x) and len(str(x)) > 6 for p in I.pts for x in p), 'parse:toolbox', lambda: repr(text))
    # tours written from depot 0
    order = list(range(1, I.n))
    rng.shuffle(order)
    cut = rng.randint(0, len(order))
    tours = {0: [0] + order[:cut], 1: [0] + order[cut:]}
    vt_, obj, _ = vt.recompute_output(tours, cs)
    full = [t + [0] for t in tours.values()]
    run.check([[c.index for c in t] for t in vt_] == [order[:cut], order[cut:]] and near(obj, sum(I.d(a, b) for t in full for a, b in zip(t[:-1], t[1:]))), 'parse:output', lambda: f'{tours} {obj}')
    with quiet():
        out = vt.output_result(vt_, obj, 0, 2, cs[0])
    rows = [r.split() for r in out.strip().split('\n')]
    run.check(rows == [['%.2f' % obj, '0']] + [[str(x) for x in t] for t in full], 'parse:written', lambda: f'{out!r} {full}')
    run.case(text, True)


def g_toolbox(run, rng):
    I = Inst(rng, hi=9)
    run.hit('toolbox')
    closest, M = vt.compute_length_matrix(I.m)
    run.check(all(near(M[a, b], I.d(a, b)) for a in range(I.n) for b in range(I.n)), 'toolbox:matrix', lambda: repr(I))
    run.check(all(sorted(closest[a].tolist()) == list(range(I.n)) and all(M[a, closest[a, k]] <= M[a, closest[a, k + 1]] for k in range(I.n - 1)) for a in range(I.n)), 'toolbox:closest', lambda: repr(I))
    k = rng.randint(1, I.n + 2)
    A, D = vt.prune_search_space(I.m, n_shortest=k)
    run.check(np.allclose(D, M), 'toolbox:prune-distances')
    for a in range(I.n):
        for b in range(I.n):
            near_ones = sum(I.d(a, c) < I.d(a, b) - 1e-9 for c in range(I.n))
            near_eq = sum(I.d(a, c) <= I.d(a, b) + 1e-9 for c in range(I.n))
            must = near_eq <= k or b == 0
            may = near_ones < k or b == 0
            run.check(near(A[a, b], M[a, b]) if must else may and near(A[a, b], M[a, b]) or A[a, b] == 0, 'toolbox:prune', lambda: f'{a} {b} {A[a, b]} {M[a, b]} closest {k} {I}')
    G, D = vt.build_graph(I.m)
    run.check(np.allclose(D, M) and all(near(G[a][b]['weight'], I.d(a, b)) if I.d(a, b) else True for a in range(I.n) for b in range(I.n) if G.has_edge(a, b)), 'toolbox:graph', lambda: repr(I))
    run.check(all(G.has_edge(a, b) for a in range(I.n) for b in range(I.n) if I.d(a, b) > 0), 'toolbox:graph-edges', lambda: repr(I))
    run.case((repr(I), k), True)


def g_greedy(run, rng):
    I = Inst(rng)
    info = repr(I)
    par = rng.choice([None, get_default_objective_setup(I.m)])
    with quiet():
        rs = gv.GreedyVRPSolver(I.m, par).solve()
        dm = I.m.get_dummy_solution()
        st = I.m.get_stupid_solution()
    run.hit('greedy')
    sol, f = rs.get_best_solution_fit()
    for s in (sol, dm):
        p = paths_of(s)
        run.check(len(p) == I.V and len({c for q in p for c in q}) == sum(map(len, p)) and {c for q in p for c in q} <= set(I.free), 'greedy:customers', lambda: f'{p} {info}')
        run.check(I.over(p) == 0, 'greedy:capacity', lambda: f'{p} {info}')
        left = [c for c in I.free if not any(c in q for q in p)]
        # a customer is left out only when no vehicle has room for it
        run.check(all(I.load(q) + I.dem[c] > I.cap[v] for c in left for v, q in enumerate(p)), 'greedy:left-out', lambda: f'{p} {info}')
        good(run, I, I.m.evaluate(s), p, 'greedy:evaluation')
        run.check(bool(I.m.satisfy(s)) == (not left), 'greedy:satisfy', lambda: f'{p} {info}')
    run.check(near(f, I.fitness(paths_of(sol))), 'greedy:fitness', lambda: f'{f} {info}')
    run.hit('greedy:partial' if left else 'greedy:complete')
    p = paths_of(st)
    run.hit('stupid')
    run.check(p == [I.free] + [[]] * (I.V - 1), 'stupid', lambda: f'{p} {info}')
    good(run, I, I.m.evaluate(st), p, 'stupid:evaluation')
    run.case(info, len(I.free) > 1)


def g_ortools(run, rng):
    while True:
        I = Inst(rng, lo=4, hi=6)
        want = I.best()
        if want is not None:
            break
    with quiet():
        s = so.VrpORToolsSolver(I.m, rng.choice([None, get_default_objective_setup(I.m)]))
        kw = dict(first_solution_strategy=rng.choice(list(so.FirstSolutionStrategy)), local_search_metaheuristic=rng.choice(list(so.LocalSearchMetaheuristic)))
        s.init_model(**kw)
        s.search_parameters.solution_limit = 60
        rs = s.solve(limit_time_s=1)
    run.hit('ortools')
    sol, f = rs.get_best_solution_fit()
    k = full(run, I, sol, 'ortools', f'{kw}')
    if k is not None:
        run.check(near(f, -k), 'ortools:fitness', lambda: f'{f} {k}')
        run.check(k >= want - 1e-6, 'ortools:oracle')
        run.hit('ortools:optimal', int(near(k, want)))
    run.case((repr(I), repr(kw)), True)


def g_lp(run, rng):
    while True:
        I = Inst(rng, lo=4, hi=6, vmax=2 if rng.random() < 0.5 else 3, depots=rng.choice(['one', 'one', 'several', 'several', 'ends']))
        if len(I.free) < 2:
            continue
        if I.best(non_empty=[v for v in range(I.V) if I.s[v] == I.e[v]]) is not None:
            break
    with quiet():
        p0 = paths_of(I.m.get_dummy_solution())
    # each round cuts a group of customers away from the depots, so 30 rounds exhaust the at most 2^4 + 2^3 groups
    exhaust = I.kind == 'one' and rng.random() < 0.2
    kw = dict(plot=False, nb_iteration_max=30 if exhaust else rng.randint(1, 4), limit_time_s=100)
    if not I.complete(p0) or rng.random() < 0.3:
        # a complete start, maybe overloaded
        cs = list(I.free)
        rng.shuffle(cs)
        p0 = [[] for _ in range(I.V)]
        for c in cs:
            rng.choice(p0).append(c)
        kw['initial_solution'] = [list(p) for p in p0]
    if not exhaust and rng.random() < 0.4 and I.over(p0) == 0 and all(p or I.s[v] != I.e[v] for v, p in enumerate(p0)):
        kw.update(do_lns=True, fraction_lns=rng.choice([0.0, 0.5, 0.9]))
        run.hit('lp:lns')
    info = f'{kw}'
    run.hit('lp')
    run.hit('lp:several-depots', int(I.kind == 'several' and len(set(I.s)) > 1))
    subs = []
    orig = lp.reevaluate_solutions

    def spy(*a, **k):
        r = orig(*a, **k)
        subs.append(max(len(c) for c in r[6]))
        return r
    with quiet():
        s = lp.VRPIterativeLP(I.m, rng.choice([None, get_default_objective_setup(I.m)]))
        if rng.random() < 0.5:
            s.init_model(**kw)
        lp.reevaluate_solutions = spy
        try:
            rs = s.solve(**kw)
        finally:
            lp.reevaluate_solutions = orig
    run.hit('lp:subtours', int(max(subs) > 1))
    sol, f = rs.get_best_solution_fit()
    k = full(run, I, sol, 'lp', info)
    if k is not None:
        run.check(near(f, -k), 'lp:fitness', lambda: f'{f} {k}')
        if (subs[0] == 1 or exhaust) and not kw.get('do_lns') and I.kind == 'one':
            # one connected set of routes is an optimum of the relaxed model
            run.hit('lp:connected', int(subs[0] == 1))
            run.hit('lp:exhausted', int(exhaust and subs[0] > 1))
            # the model lets a vehicle stay at its depot only when it does so in the start
            want = I.best(non_empty=[v for v in range(I.V) if p0[v]])
            run.check(near(k, want), 'lp:optimal', lambda: f'{k} want {want} {info} {I} {paths_of(sol)}')
    run.case((repr(I), info), True)


def g_lp_large(run, rng):
    """More places than the ten nearest kept: the start and the rebuilt routes use legs the pruned graph lacks."""
    while True:
        I = Inst(rng, lo=12, hi=14, vmax=2, depots=rng.choice(['one', 'one', 'several', 'ends']))
        p0 = [[] for _ in range(I.V)]
        cs = list(I.free)
        rng.shuffle(cs)
        for c in cs:
            rng.choice([p for v, p in enumerate(p0) if I.load(p) + I.dem[c] <= I.cap[v]] or [[]]).append(c)
        if I.complete(p0) and all(p or I.s[v] != I.e[v] for v, p in enumerate(p0)):
            break
    kw = dict(plot=False, nb_iteration_max=rng.randint(1, 3), limit_time_s=100, initial_solution=[list(p) for p in p0])
    if rng.random() < 0.3:
        kw.update(do_lns=True, fraction_lns=rng.choice([0.5, 0.9]))
    info = f'{kw}'
    run.hit('lp-large')
    with quiet():
        s = lp.VRPIterativeLP(I.m, rng.choice([None, get_default_objective_setup(I.m)]))
        s.init_model(**kw)
        # the graph of the model holds the legs of the start with their true lengths
        g = s.graph
        for v, p in enumerate(p0):
            for a, b in zip([I.s[v], *p], [*p, I.e[v]]):
                run.check(g.has_edge((v, a), (v, b)), 'lp:start-leg-missing', lambda: f'{(v, a, b)} {I} {info}')
        rs = s.solve(**kw)
    for (a, b, w) in s.graph.edges(data='weight'):
        if a[0] == b[0] and not near(w, I.d(a[1], b[1])):
            run.fail('lp:leg-length', f'{(a, b, w)} want {I.d(a[1], b[1])} {I} {info}')
            break
    sol, f = rs.get_best_solution_fit()
    k = full(run, I, sol, 'lp', info)
    if k is not None:
        run.check(near(f, -k), 'lp:fitness', lambda: f'{f} {k}')
    run.case((repr(I), info), True)


def g_depots(run, rng):
    """Depots with a demand of their own: every vehicle bears it once for each distinct end, empty or not."""
    I = Inst(rng)
    depots = set(I.s + I.e)
    for d in depots:
        I.dem[d] = rng.randint(0, 4)
    extra = [I.dem[s] + (I.dem[e] if e != s else 0) for s, e in zip(I.s, I.e)]
    I.cap = [c + rng.choice([0, x, x]) for c, x in zip(I.cap, extra)]
    m = vm.VrpProblem2D(I.V, list(I.cap), I.n, [vm.Customer2D(i, I.dem[i], *I.pts[i]) for i in range(I.n)], list(I.s), list(I.e))
    I.m = m
    paths = random_paths(rng, I)
    info = f'{paths} {I}'
    loads = [x + I.load(p) for x, p in zip(extra, paths)]
    over = sum(max(0, l - c) for l, c in zip(loads, I.cap))
    sol = sol_of(I, paths)
    e = m.evaluate(sol)
    run.hit('depots')
    run.hit('depots:empty-route', int(any(x and not p for x, p in zip(extra, paths))))
    run.hit('depots:both-ends', int(any(I.dem[s] and s == e_ and p for s, e_, p in zip(I.s, I.e, paths))))
    run.check([float(c) for c in sol.capacities] == [float(l) for l in loads], 'depots:loads', lambda: f'{sol.capacities} want {loads} {info}')
    run.check(near(e['length'], I.length(paths)) and near(e['capacity_violation'], over), 'depots:evaluate', lambda: f'{e} want {I.length(paths)},{over} {info}')
    run.check(bool(m.satisfy(sol)) == (I.complete(paths) and over == 0), 'depots:satisfy', lambda: info)
    with quiet():
        g = gv.GreedyVRPSolver(m).solve().get_best_solution_fit()
    p = paths_of(g[0])
    done = [c for q in p for c in q]
    run.check(len(p) == I.V and len(set(done)) == len(done) and set(done) <= set(I.free), 'depots:greedy:customers', lambda: f'{p} {info}')
    loads = [x + I.load(q) for x, q in zip(extra, p)]
    run.check(all(l <= c or not q for l, c, q in zip(loads, I.cap, p)), 'depots:greedy:overload', lambda: f'{p} {loads} {info}')
    run.check(all(l + I.dem[c] > k for c in set(I.free) - set(done) for l, k in zip(loads, I.cap)), 'depots:greedy:left-out', lambda: f'{p} {loads} {info}')
    run.check(near(g[1], I.fitness(p)), 'depots:greedy:fitness', lambda: f'{g[1]} {p} {info}')
    run.case(info, any(paths) and any(extra))


GROUPS = [('model', g_model, 900, 14000), ('depots', g_depots, 300, 4000), ('parse', g_parse, 120, 1500), ('toolbox', g_toolbox, 250, 3000), ('greedy', g_greedy, 350, 5000), ('ortools', g_ortools, 8, 40, 200_000_000), ('lp', g_lp, 110, 1000, 200_000_000), ('lp-large', g_lp_large, 24, 300, 200_000_000)]

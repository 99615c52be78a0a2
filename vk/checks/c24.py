"""C24 Travelling salesman problems: tours, moves and solvers agree with the points."""
import atexit
import itertools
import math
import os
import shutil
import tempfile
import warnings

from vk.dostubs import quiet, install, empty_data_dirs

install()
warnings.filterwarnings('ignore')
_cwd = os.getcwd()
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.tsp import tsp_model as tm, common_tools_tsp as ct, tsp_parser as tp
    from skdecide.builders.discrete_optimization.tsp.mutation import mutation_tsp as mt
    from skdecide.builders.discrete_optimization.tsp.solver import solver_lp_iterative as lp, solver_ortools as so, tsp_cp_solver as cp
    from skdecide.builders.discrete_optimization.generic_tools.mutations import mutation_catalog as mc
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, TypeAttribute, ModeOptim, ParamsObjectiveFunction, ObjectiveHandling
    from skdecide.builders.discrete_optimization.generic_tools.ls import local_search as ls, hill_climber as hc
    from skdecide.builders.discrete_optimization.generic_tools.ea.ga import Ga
CWD_KEPT = os.getcwd() == _cwd
os.chdir(_cwd)

RULE = 'random plane instances of 2 to 10 points (integer, real, repeated and aligned points), all choices of extremities, random tours, move chains with undo, solver parameters; non-trivial = at least two intermediate points'
REQUIRED = {'model': 300, 'model:compiled': 30, 'model:open': 80, 'satisfy': 300, 'satisfy:no': 150, 'edit': 300, 'move': 1500, 'move:2opt': 500, 'move:intersection': 60, 'move:swap': 300, 'move:generic': 60, 'undo': 500, 'climb': 20, 'tools': 150, 'graph': 100, 'lp': 60, 'lp:open': 15, 'lp:cuts': 8,
            'routing': 10, 'routing:large': 1, 'cp': 15, 'ga': 4}
ASSUMPTIONS = ['at least one intermediate point; moves need two of them', 'MiniZinc models are solved by Gecode instead of the absent Chuffed, their include "globals.mzn" narrowed to the two predicates in use because the installed Gecode library is older than MiniZinc',
               'the routing solver runs with one-second limits and without its 30 s metaheuristic']
TOL = 1e-7
_tmp = None


def mzn_dir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vkmzn')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
        src = os.path.join(os.path.dirname(tm.__file__), 'minizinc')
        os.makedirs(os.path.join(_tmp, 'minizinc'))
        os.makedirs(os.path.join(_tmp, 'solver'))
        for f in os.listdir(src):
            text = open(os.path.join(src, f)).read().replace('include "globals.mzn"', 'include "all_different.mzn"; include "circuit.mzn"')
            open(os.path.join(_tmp, 'minizinc', f), 'w').write(text)
        cp.this_path = os.path.join(_tmp, 'solver')


def inst(rng, lo=3, hi=9, grid=None, compiled=False, interior=1):
    n = rng.randint(lo, hi)
    kind = rng.choice(['int', 'int', 'real', 'small', 'line'])
    if kind == 'int':
        pts = [(float(rng.randint(-20, 20)), float(rng.randint(-20, 20))) for _ in range(n)]
    elif kind == 'real':
        pts = [(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(n)]
    elif kind == 'small':
        pts = [(rng.random(), rng.random()) for _ in range(n)]
    else:
        pts = [(float(rng.randint(0, 6)), 1.0) for _ in range(n)]
    if rng.random() < 0.2:
        pts[rng.randrange(n)] = pts[rng.randrange(n)]
    s = rng.randrange(n)
    e = s if rng.random() < 0.5 else rng.randrange(n)
    if n - len({s, e}) < interior:
        e = s
    if rng.random() < 0.15:
        s = e = 0
        m = tm.TSPModel2D([tm.Point2D(*p) for p in pts], n, None, None, use_numba=compiled)
    else:
        m = tm.TSPModel2D([tm.Point2D(*p) for p in pts], n, s, e, use_numba=compiled)
    return pts, n, s, e, m


def dist(pts, i, j):
    return math.hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1])


def legs(pts, s, e, perm):
    path = [s] + [int(x) for x in perm] + [e]
    return [dist(pts, a, b) for a, b in zip(path[:-1], path[1:])]


def near(a, b):
    return abs(float(a) - float(b)) <= TOL * (1 + abs(float(b)))


def consistent(run, I, sol, mech, info=''):
    """The solution is a tour whose stored legs, length and encodings are those of its permutation."""
    pts, n, s, e, m = I
    perm = [int(x) for x in sol.permutation]
    inner = [i for i in range(n) if i not in (s, e)]
    if not run.check(sorted(perm) == inner, mech + ':not-a-tour', lambda: f'{perm} of {inner} {info}'):
        return False
    want = legs(pts, s, e, perm)
    run.check(len(sol.lengths) == len(want) and all(near(a, b) for a, b in zip(sol.lengths, want)), mech + ':legs', lambda: f'{list(sol.lengths)} want {want} {perm} {info}')
    run.check(near(sol.length, sum(want)), mech + ':length', lambda: f'{sol.length} want {sum(want)} {perm} {info}')
    run.check([inner[i] for i in sol.permutation_from0] == perm, mech + ':encodings', lambda: f'{sol.permutation_from0} {perm} {info}')
    return True


def optimum(I):
    pts, n, s, e, m = I
    return min(sum(legs(pts, s, e, p)) for p in itertools.permutations([i for i in range(n) if i not in (s, e)]))


def rand_perm(rng, I):
    p = [i for i in range(I[1]) if i not in (I[2], I[3])]
    rng.shuffle(p)
    return p


# ------------------------------------------------------------------------------------------- model

def g_model(run, rng, compiled=False):
    I = inst(rng, 2, 10, compiled=compiled)
    pts, n, s, e, m = I
    inner = [i for i in range(n) if i not in (s, e)]
    run.hit('model')
    run.hit('model:open', int(s != e))
    run.hit('model:compiled', int(compiled))
    run.check(CWD_KEPT, 'import:working-directory')
    info = f'{pts} {s}->{e}'
    p = rand_perm(rng, I)
    idx = [inner.index(x) for x in p]
    sol = tm.SolutionTSP(problem=m, start_index=s, end_index=e, permutation=list(p)) if rng.random() < 0.5 else tm.SolutionTSP(problem=m, permutation_from0=list(idx))
    consistent(run, I, sol, 'model', info)
    run.eq(list(sol.permutation), p, 'model:permutation')
    run.eq((sol.start_index, sol.end_index), (s, e), 'model:extremities')
    want = sum(legs(pts, s, e, p))
    run.check(near(m.evaluate(sol)['length'], want), 'model:evaluate')
    for enc, v in (('permutation', list(p)), ('permutation_from0', list(idx))):
        run.check(near(m.evaluate_from_encoding(v, enc)['length'], want), 'model:encoding:' + enc, lambda: f'{v} {info}')
    run.eq(list(m.convert_perm_from0_to_original_perm(idx)), p, 'model:convert')
    run.eq(list(m.convert_original_perm_to_perm_from0(p)), idx, 'model:convert-back')
    i, j = rng.randrange(n), rng.randrange(n)
    run.check(near(m.evaluate_function_indexes(i, j), dist(pts, i, j)), 'model:distance')
    d = m.get_dummy_solution()
    consistent(run, I, d, 'dummy', info)
    run.check(m.satisfy(d) and m.satisfy(sol), 'satisfy:tour', lambda: f'{p} {info}')
    run.hit('satisfy')
    reg = m.get_attribute_register().dict_attribute_to_type
    run.check(reg['permutation']['n'] == len(inner) and list(reg['permutation']['range']) == inner and reg['permutation_from0']['n'] == len(inner) and list(reg['permutation_from0']['range']) == list(range(len(inner))), 'model:register', lambda: str(reg))
    # damaged tours
    bad = sol.copy()
    q = list(p)
    kind = rng.choice(['dup', 'drop', 'extra', 'end'])
    if kind == 'dup' and len(q) > 1:
        q[0] = q[1]
    elif kind == 'drop':
        q = q[:-1]
    elif kind == 'extra':
        q = q + [q[0]]
    else:
        q[0] = s
    bad.__dict__['permutation'] = q
    if len(q) and sorted(q) != inner:
        run.hit('satisfy:no')
        run.check(not m.satisfy(bad), 'satisfy:damaged', lambda: f'{kind} {q} {info}')
    # copies, edits, change of problem
    c = sol.copy()
    l = sol.lazy_copy()
    run.check(list(c.permutation) == p and near(c.length, want) and list(l.permutation) == p and near(l.length, want), 'copy')
    p2 = rand_perm(rng, I)
    if rng.random() < 0.5:
        c.permutation = list(p2)
    else:
        c.permutation_from0 = [inner.index(x) for x in p2]
    m.evaluate(c)
    run.hit('edit')
    consistent(run, I, c, 'edit', f'{p} -> {p2} {info}')
    run.eq([int(x) for x in c.permutation], p2, 'edit:value')
    consistent(run, I, sol, 'edit-original', info)
    run.eq(list(sol.permutation), p, 'edit:aliasing')
    if len(p) > 1:
        c2 = sol.copy()
        c2.permutation[0], c2.permutation[1] = c2.permutation[1], c2.permutation[0]
        run.eq(list(sol.permutation), p, 'copy:aliasing')
        run.check(near(m.evaluate(c2)['length'], sum(legs(pts, s, e, c2.permutation))), 'edit:in-place')
    pts2 = [(y + 1.5, x * 2) for x, y in pts]
    m2 = tm.TSPModel2D([tm.Point2D(*x) for x in pts2], n, s, e, use_numba=False)
    c3 = sol.copy()
    c3.change_problem(m2)
    consistent(run, (pts2, n, s, e, m2), c3, 'change-problem', info)
    consistent(run, I, sol, 'change-problem-original', info)
    run.case((info, tuple(p)), len(p) > 1)


def g_compiled(run, rng):
    g_model(run, rng, compiled=True)


# ------------------------------------------------------------------------------------------- moves

def two_opt_of(p, q):
    """The segments whose reversal turns p into q."""
    if p == q:
        return []
    i = min(k for k in range(len(p)) if p[k] != q[k])
    j = max(k for k in range(len(p)) if p[k] != q[k])
    return [(i, j)] if p[:i] + p[i:j + 1][::-1] + p[j + 1:] == q else None


def g_moves(run, rng):
    I = inst(rng, 4, 10, interior=2)
    pts, n, s, e, m = I
    p = rand_perm(rng, I)
    k = len(p)
    sol = tm.SolutionTSP(problem=m, permutation=list(p))
    kind = rng.choice(['2opt', '2opt', 'intersection', 'swap', 'generic'])
    info = f'{pts} {s}->{e}'
    opts = {}
    if kind == '2opt':
        opts = dict(test_all=rng.random() < 0.4, nb_test=rng.choice([None, 1, 2, 3, 50]), return_only_improvement=rng.random() < 0.4)
        mut = mt.Mutation2Opt(m, **opts) if rng.random() < 0.5 else mt.Mutation2Opt.build(m, sol, **opts)
    elif kind == 'intersection':
        opts = dict(return_only_improvement=rng.random() < 0.4)
        mut = mt.Mutation2OptIntersection(m, **opts) if rng.random() < 0.5 else mt.Mutation2OptIntersection.build(m, sol, **opts)
    elif kind == 'swap':
        mut = mt.MutationSwapTSP.build(m, sol) if rng.random() < 0.5 else mt.MutationSwapTSP(m)
    else:
        _, lm = mc.get_available_mutations(m, sol)
        lm = [x for x in lm if 'TSP' not in x[0].__name__ and '2Opt' not in x[0].__name__] if rng.random() < 0.7 else lm
        run.require(lm)
        c, kw = rng.choice(lm)
        with quiet():
            mut = c.build(m, sol, **kw)
        run.hit('move:generic')
    hist = []
    for _ in range(rng.randint(3, 12)):
        before = [int(x) for x in sol.permutation]
        len0 = sum(legs(pts, s, e, before))
        keep = sol
        obj = rng.random() < 0.5
        with quiet():
            if obj:
                sol, move, f = mut.mutate_and_compute_obj(sol)
            else:
                sol, move = mut.mutate(sol)
                f = None
        after = [int(x) for x in sol.permutation]
        run.hit('move')
        if kind != 'generic':
            run.hit('move:' + kind)
        if kind == 'generic':
            m.evaluate(sol)         # these moves know nothing of lengths
        if not consistent(run, I, sol, 'move:' + kind, f'{before} -> {after} {opts} {info}'):
            return
        if f is not None:
            run.check(isinstance(f, dict) and near(f['length'], sum(legs(pts, s, e, after))), 'move:' + kind + ':objectives', lambda: f'{f} {before} -> {after} {opts} {info}')
        len1 = sum(legs(pts, s, e, after))
        if kind in ('2opt', 'intersection'):
            run.check(two_opt_of(before, after) is not None, 'move:' + kind + ':shape', lambda: f'{before} -> {after}')
            run.check([int(x) for x in keep.permutation] == before, 'move:' + kind + ':aliasing')
            if opts['return_only_improvement']:
                run.check(len1 <= len0 + TOL, 'move:' + kind + ':worse', lambda: f'{len0} -> {len1}')
            if opts.get('test_all'):
                best = min(sum(legs(pts, s, e, before[:i] + before[i:j + 1][::-1] + before[j + 1:])) for i in range(k) for j in range(i + 1, k))
                if opts['return_only_improvement']:
                    best = min(best, len0)
                run.check(near(len1, best), 'move:2opt:best', lambda: f'{len1} want {best} {before} {info}')
        elif kind == 'swap':
            diff = [x for x in range(k) if before[x] != after[x]]
            run.check(len(diff) == 2 and before[diff[0]] == after[diff[1]] and before[diff[1]] == after[diff[0]], 'move:swap:shape', lambda: f'{before} -> {after}')
        if rng.random() < 0.5:
            run.hit('undo')
            with quiet():
                sol = move.backtrack_local_move(sol)
                if kind == 'generic':
                    m.evaluate(sol)
            consistent(run, I, sol, 'undo:' + kind, f'{before} {after} {info}')
            run.check([int(x) for x in sol.permutation] == before, 'undo:' + kind, lambda: f'{before} -> {after} -> {list(sol.permutation)}')
            if rng.random() < 0.4:
                with quiet():
                    sol = move.apply_local_move(sol)
                    if kind == 'generic':
                        m.evaluate(sol)
                consistent(run, I, sol, 'redo:' + kind, f'{before} {after} {info}')
                run.check([int(x) for x in sol.permutation] == after, 'redo:' + kind)
    run.case((info, tuple(p), kind, repr(opts)), True)


def g_climb(run, rng):
    I = inst(rng, 5, 8, interior=3)
    pts, n, s, e, m = I
    sol = tm.SolutionTSP(problem=m, permutation=rand_perm(rng, I))
    p0 = list(sol.permutation)
    _, lm = mc.get_available_mutations(m, sol)
    c, kw = rng.choice(lm)
    with quiet():
        mut = c.build(m, sol, **kw)
        params = get_default_objective_setup(m)
        climber = hc.HillClimber(evaluator=m, mutator=mut, restart_handler=ls.RestartHandler(), mode_mutation=ls.ModeMutation.MUTATE_AND_EVALUATE if rng.random() < 0.5 else ls.ModeMutation.MUTATE, params_objective_function=params, store_solution=True)
        rs = climber.solve(sol.copy(), nb_iteration_max=60)
    run.hit('climb')
    b, f = rs.get_best_solution_fit()
    for x, fx in rs.list_solution_fits:
        w = sum(legs(pts, s, e, x.permutation))
        run.check(near(fx, w) and sorted(int(y) for y in x.permutation) == [i for i in range(n) if i not in (s, e)], 'climb:stored', lambda: f'{fx} want {w} {c.__name__} {kw}')
    w0 = sum(legs(pts, s, e, p0))
    run.check(sum(legs(pts, s, e, b.permutation)) <= w0 + TOL, 'climb:worse-than-start', lambda: f'{f} {w0}')
    run.check(float(f) >= optimum(I) - TOL, 'climb:better-than-optimal')
    run.case((repr(pts), s, e, c.__name__), True)


def g_ga(run, rng):
    I = inst(rng, 5, 7, interior=3)
    pts, n, s, e, m = I
    enc = rng.choice(['permutation_from0', 'permutation_from0', None])
    with quiet():
        ga = Ga(m, encoding=enc, objective_handling=ObjectiveHandling.AGGREGATE, objectives=['length'], objective_weights=[-1], max_evals=200)
        rs = ga.solve()
    run.hit('ga')
    b = rs.get_best_solution() if hasattr(rs, 'get_best_solution') else rs
    run.check(sorted(int(x) for x in b.permutation) == [i for i in range(n) if i not in (s, e)], 'ga:not-a-tour')
    w = sum(legs(pts, s, e, b.permutation))
    run.check(near(m.evaluate(b)['length'], w), 'ga:length')
    run.case((repr(pts), s, e, enc), True)


# ------------------------------------------------------------------------------------------- tools

def g_tools(run, rng):
    I = inst(rng, 2, 10)
    pts, n, s, e, m = I
    P = [tm.Point2D(*p) for p in pts]
    with quiet():
        for method, f in ((None, dist), (m.evaluate_function_indexes, dist), (lambda i, j: ct.length_1(P[i], P[j]), lambda q, i, j: abs(q[i][0] - q[j][0]) + abs(q[i][1] - q[j][1]))):
            M = ct.build_matrice_distance(n, P, method) if method else ct.build_matrice_distance(n, P)
            run.check(all(near(M[i, j], f(pts, i, j)) for i in range(n) for j in range(n)), 'tools:matrix', lambda: f'{M} {pts}')
        p = list(range(n))
        rng.shuffle(p)
        ll, o = ct.compute_length(p, P, n)
        want = [dist(pts, p[i], p[(i + 1) % n]) for i in range(n)]
        run.check(near(o, sum(want)) and all(near(a, b) for a, b in zip(ll, want)) and len(ll) == n, 'tools:closed-length', lambda: f'{ll} {want}')
        b, o, _ = ct.baseline_in_order(n, P)
        run.check(list(b) == list(range(n)) and near(o, sum(dist(pts, i, (i + 1) % n) for i in range(n))), 'tools:baseline')
        g, o, _ = ct.closest_greedy(n, P)
    g = [int(x) for x in g]
    if run.check(sorted(g) == list(range(n)) and g[0] == 0, 'tools:greedy-tour', lambda: f'{g} {pts}'):
        run.check(near(o, sum(dist(pts, g[i], g[(i + 1) % n]) for i in range(n))), 'tools:greedy-length')
        ip = [(int(x), int(y)) for x, y in pts]

        def man(a, b):
            return abs(ip[a][0] - ip[b][0]) + abs(ip[a][1] - ip[b][1])
        for k in range(n - 1):
            run.check(man(g[k], g[k + 1]) == min(man(g[k], x) for x in g[k + 1:]), 'tools:greedy-closest', lambda: f'{g} {pts}')
    text = f'{n}\n' + ''.join(f'{x!r} {y!r}\n' for x, y in pts)
    nn, pp = ct.parse(text)
    run.check(nn == n and [(q.x, q.y) for q in pp] == pts, 'tools:parse')
    d = tempfile.mkdtemp(prefix='vktsp')
    try:
        f = os.path.join(d, 'tsp_x')
        open(f, 'w').write(text)
        mm = tp.parse_file(f, start_index=s, end_index=e)
    finally:
        shutil.rmtree(d)
    run.check(mm.node_count == n and (mm.start_index, mm.end_index) == (s, e) and [(q.x, q.y) for q in mm.list_points] == pts, 'tools:parse-file')
    run.hit('tools')
    for name in ('complete', 'pruned'):
        with quiet():
            g, g0, ein, eout = getattr(lp, 'build_graph_' + name)(m)
        E = {(i, j) for i in range(n) for j in range(n) if i != j}
        run.check(set(g.edges()) == E and set(g.nodes()) == set(range(n)), 'graph:' + name + ':edges', lambda: f'{sorted(g.edges())} {pts}')
        run.check(all(near(g[a][b]['weight'], dist(pts, a, b)) for a, b in g.edges()), 'graph:' + name + ':weights')
        run.check(all(ein[i] == {x for x in E if x[1] == i} and eout[i] == {x for x in E if x[0] == i} for i in range(n)), 'graph:' + name + ':adjacency')
        run.check(set(g0.nodes()) == set(range(n)) and not g0.edges(), 'graph:' + name + ':empty')
        run.hit('graph')
    run.case((repr(pts), s, e), n > 3)


# ------------------------------------------------------------------------------------------- solvers

def result(run, I, rs, mech):
    sol, f = rs.get_best_solution_fit()
    if not consistent(run, I, sol, mech, f'{I[0]} {I[2]}->{I[3]}'):
        return None
    run.check(near(f, sol.length), mech + ':fitness', lambda: f'{f} {sol.length}')
    run.check(I[4].satisfy(sol), mech + ':satisfy')
    return sum(legs(I[0], I[2], I[3], sol.permutation))


def g_lp(run, rng):
    clustered = rng.random() < 0.5
    if clustered:
        # pairs and triples of close points: the first relaxations are made of several cycles
        pts = []
        for _ in range(rng.randint(2, 3)):
            c = (rng.uniform(-50, 50), rng.uniform(-50, 50))
            pts += [(c[0] + rng.uniform(-1, 1), c[1] + rng.uniform(-1, 1)) for _ in range(3)]
        pts = pts[:rng.randint(6, 8)]
        n = len(pts)
        s = rng.randrange(n)
        e = s if rng.random() < 0.6 else rng.randrange(n)
        I = (pts, n, s, e, tm.TSPModel2D([tm.Point2D(*p) for p in pts], n, s, e, use_numba=False))
    else:
        I = inst(rng, 4, 7, interior=2)
    pts, n, s, e, m = I
    builder = rng.choice([lp.build_graph_complete, lp.build_graph_pruned])
    with quiet():
        solver = lp.LP_TSP_Iterative(m, builder)
        solver.init_model(lp.MILPSolver.CBC)
        n0 = solver.model.NumConstraints()
        rs = solver.solve(plot=False, nb_iteration_max=200)
    run.hit('lp')
    run.hit('lp:open', int(s != e))
    run.hit('lp:cuts', int(solver.model.NumConstraints() > n0 + 2))
    got = result(run, I, rs, 'lp')
    if got is not None:
        run.check(near(got, optimum(I)), 'lp:optimal', lambda: f'{got} want {optimum(I)} {pts} {s}->{e}')
    run.case((repr(pts), s, e, builder.__name__), True)


def g_routing(run, rng):
    I = inst(rng, 4, 8, interior=2)
    pts, n, s, e, m = I
    with quiet():
        solver = so.TSP_ORtools(m, None)
        solver.init_model()
        solver.search_parameters.time_limit.seconds = 1
        solver.search_parameters.local_search_metaheuristic = so.routing_enums_pb2.LocalSearchMetaheuristic.GREEDY_DESCENT
        rs = solver.solve()
    run.hit('routing')
    got = result(run, I, rs, 'routing')
    R, M = solver.routing, solver.manager
    for i in range(n):
        for j in range(n):
            if i == j or i == e and s != e or j == s and s != e or (i, j) == (s, e):
                continue
            a = M.NodeToIndex(i)
            b = R.End(0) if j == e else M.NodeToIndex(j)
            w = R.GetArcCostForVehicle(a, b, 0)
            run.check(abs(w / 1e6 - dist(pts, i, j)) <= 1e-5 * (1 + dist(pts, i, j)), 'routing:distance', lambda: f'{i}->{j} {w} want {dist(pts, i, j)}')
    if got is not None:
        run.check(got >= optimum(I) - TOL, 'routing:better-than-optimal')
    run.case((repr(pts), s, e), True)


def g_large(run, rng):
    """From a thousand points on, distances are computed on demand."""
    n = 1000 + rng.randint(0, 2)
    pts = [(rng.uniform(-50, 50), rng.uniform(-50, 50)) for _ in range(n)]
    m = tm.TSPModel2D([tm.Point2D(*p) for p in pts], n, 0, 0, use_numba=False)
    with quiet():
        solver = so.TSP_ORtools(m, None)
        solver.init_model()
        solver.routing.CloseModel()
    run.hit('routing:large')
    for _ in range(50):
        i, j = rng.sample(range(1, n), 2)
        w = solver.routing.GetArcCostForVehicle(solver.manager.NodeToIndex(i), solver.manager.NodeToIndex(j), 0)
        run.check(abs(w / 1e6 - dist(pts, i, j)) <= 1e-5 * (1 + dist(pts, i, j)), 'routing:distance', lambda: f'{i}->{j} {w} want {dist(pts, i, j)}')
    run.case((n, pts[0]), True)


def g_cp(run, rng):
    mzn_dir()
    I = inst(rng, 4, 6, interior=2)
    pts, n, s, e, m = I
    ver = rng.choice([cp.TSP_CPModel.FLOAT_VERSION, cp.TSP_CPModel.INT_VERSION])
    with quiet():
        solver = cp.TSP_CP_Solver(m, ver, None)
        solver.init_model(solver='gecode')
        rs = solver.solve(max_time_seconds=600)
    run.hit('cp')
    got = result(run, I, rs, 'cp')
    if got is not None:
        if ver == cp.TSP_CPModel.FLOAT_VERSION:
            run.check(abs(got - optimum(I)) < 1e-4 * (1 + got), 'cp:optimal', lambda: f'{got} want {optimum(I)} {pts} {s}->{e}')
        else:
            # distances rounded down
            def tot(p):
                return sum(int(x) for x in legs(pts, s, e, p))
            sol = rs.get_best_solution()
            want = min(tot(p) for p in itertools.permutations([i for i in range(n) if i not in (s, e)]))
            run.check(tot(sol.permutation) == want, 'cp:optimal-integer', lambda: f'{tot(sol.permutation)} want {want} {pts} {s}->{e}')
    run.case((repr(pts), s, e, ver), True)


GROUPS = [('model', g_model, 500, 8000), ('compiled', g_compiled, 60, 600), ('moves', g_moves, 500, 8000), ('climb', g_climb, 40, 600), ('tools', g_tools, 250, 4000), ('lp', g_lp, 120, 2500, 200_000_000), ('routing', g_routing, 30, 300, 200_000_000), ('large', g_large, 2, 10, 200_000_000), ('cp', g_cp, 30, 400, 200_000_000), ('ga', g_ga, 6, 60, 200_000_000)]

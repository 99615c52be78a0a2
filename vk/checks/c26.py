"""C26 Graph colouring: colourings, searches and solvers agree with the graph."""
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

from vk.dostubs import quiet, install, empty_data_dirs

install()
warnings.filterwarnings('ignore')
from vk import mipsub
from vk.mzn import narrowed
mipsub.install(memory=True)
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.coloring import coloring_model as cm, coloring_parser as cpa, coloring_toolbox as ctb
    from skdecide.builders.discrete_optimization.coloring.solvers import greedy_coloring as gc, coloring_cp_solvers as cp, coloring_cp_lns_solvers as cplns, coloring_lp_solvers as lp, coloring_lp_lns_solvers as lplns
    from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, ModeOptim, ObjectiveHandling
    from skdecide.builders.discrete_optimization.generic_tools.ls import local_search as ls, hill_climber as hc
    from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
    from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP
    from skdecide.builders.discrete_optimization.generic_tools.lns_mip import LNS_MILP
    from skdecide.builders.discrete_optimization.generic_tools.lns_cp import LNS_CP
    from skdecide.builders.discrete_optimization.generic_tools.ea.ga import Ga

RULE = 'random undirected graphs of 2 to 8 nodes (nodes numbered, scattered or named; several components, isolated nodes, complete and bipartite parts, edges given twice for the CP models), random colourings with and without conflicts, edit and move histories, solver parameters; non-trivial = at least one edge'
REQUIRED = {'model': 500, 'model:conflict': 150, 'model:proper': 100, 'model:named': 100, 'edit': 300, 'parse': 80, 'move': 800, 'climb': 30, 'ga': 4, 'greedy': 200, 'greedy:single': 100, 'cliques': 150, 'cliques:cut': 30, 'lp': 60, 'lp:cliques': 20, 'cp': 40, 'cp:cliques': 8, 'cp:few-cliques': 4, 'cp:lns': 6, 'lns-lp': 15, 'lns-cp': 8, 'lns:improved': 3}
ASSUMPTIONS = ['undirected graphs without self-loops, with at least one edge for the constraint programming models', 'MiniZinc models are solved by Gecode instead of the absent Chuffed and, for python-mip, HiGHS replaces the bundled CBC that crashes here', 'the start of a neighbourhood search uses no more colours than the model has']


class _Solver:
    """Chuffed is not installed: Gecode answers instead."""
    @staticmethod
    def lookup(name):
        return _real.lookup('gecode' if name == 'chuffed' else name)


_real = cp.Solver
_tmp = None


def mzn_dir():
    global _tmp
    if _tmp is None:
        _tmp = narrowed(cp.path_minizinc, '')
        cp.path_minizinc = os.path.join(_tmp, 'minizinc')
        cp.Solver = _Solver


def inst(rng, lo=2, hi=8, names=None, edges=0, dup=False):
    n = rng.randint(lo, hi)
    kind = names or rng.choice(['range', 'range', 'scattered', 'named'])
    names = list(range(n)) if kind == 'range' else rng.sample(range(-9, 90), n) if kind == 'scattered' else rng.sample(['p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x1', 'x2', 'Z'], n)
    style = rng.choice(['random', 'random', 'dense', 'bipartite', 'parts', 'crown'])
    E = set()
    for i in range(n):
        for j in range(i + 1, n):
            if style == 'random':
                k = rng.random() < 0.4
            elif style == 'dense':
                k = rng.random() < 0.85
            elif style == 'bipartite':
                k = (i + j) % 2 == 1 and rng.random() < 0.7
            elif style == 'crown':
                k = i % 2 == 0 and j % 2 == 1 and j != i + 1     # greedy colourings in order are bad on crowns
            else:
                k = (i < n // 2) == (j < n // 2) and rng.random() < 0.8
            if k:
                E.add((i, j))
    while len(E) < edges:
        a, b = sorted(rng.sample(range(n), 2))
        E.add((a, b))
    l = [(a, b) if rng.random() < 0.5 else (b, a) for a, b in E]
    if dup and E and rng.random() < 0.4:
        l += [(b, a) for a, b in rng.sample(l, rng.randint(1, len(l)))]
    rng.shuffle(l)
    order = list(names)
    rng.shuffle(order)
    g = Graph([(x, {}) for x in order], [(names[a], names[b], {}) for a, b in l], undirected=True)
    m = cm.ColoringProblem(g)
    # positions of colours are those of the sorted node names
    pos = {x: k for k, x in enumerate(sorted(names))}
    P = [(pos[names[a]], pos[names[b]]) for a, b in l]
    return n, P, sorted(names), m


def ints(l):
    return [int(x) for x in l]


def conflicts(P, c):
    return sum(c[a] == c[b] for a, b in P)


def chromatic(n, P):
    for k in range(1, n + 1):
        # first node coloured 0, new colours in order
        def go(i, c, used):
            if i == n:
                return True
            for x in range(min(k, used + 1)):
                if all(c[b if a == i else a] != x for a, b in P if i in (a, b) and max(a, b) == i):
                    if go(i + 1, c + [x], max(used, x + 1)):
                        return True
            return False
        if go(0, [], 0):
            return k
    return n


def proper(run, I, sol, mech, info=''):
    n, P, names, m = I
    c = ints(sol.colors)
    if not run.check(len(c) == n and conflicts(P, c) == 0, mech + ':conflict', lambda: f'{c} edges {P} {info}'):
        return None
    e = m.evaluate(sol)
    run.check(e['nb_colors'] == len(set(c)) and e['nb_violations'] == 0, mech + ':evaluation', lambda: f'{e} {c} {info}')
    run.check(m.satisfy(sol), mech + ':satisfy')
    return len(set(c))


def storage(run, I, rs, mech, info='', optimal=False):
    n, P, names, m = I
    if not run.check(len(rs.list_solution_fits) > 0, mech + ':empty', lambda: f'{P} {info}'):
        return None
    ks = []
    for s, f in rs.list_solution_fits:
        k = proper(run, I, s, mech, info)
        if k is None:
            return None
        run.check(f == -k, mech + ':fitness', lambda: f'{f} want {-k} {info}')
        ks.append(k)
    b, f = rs.get_best_solution_fit()
    run.check(f == -min(ks), mech + ':best', lambda: f'{f} {ks}')
    if optimal:
        run.check(min(ks) == chromatic(n, P), mech + ':optimal', lambda: f'{min(ks)} want {chromatic(n, P)} {n} nodes {P} {info}')
    return min(ks)


# ------------------------------------------------------------------------------------------- model

def g_model(run, rng):
    I = inst(rng)
    n, P, names, m = I
    c = [rng.randrange(n) for _ in range(n)] if rng.random() < 0.6 else ints(gc_color(rng, n, P))
    v = conflicts(P, c)
    info = f'{n} nodes {P} colours {c} names {names}'
    run.hit('model')
    run.hit('model:conflict', int(v > 0))
    run.hit('model:proper', int(v == 0 and bool(P)))
    run.hit('model:named', int(names != list(range(n))))

    def good(e, c, mech):
        return run.check(e['nb_colors'] == len(set(c)) and e['nb_violations'] == conflicts(P, c), mech, lambda: f'{e} want {len(set(c))},{conflicts(P, c)} {c} {info}')
    kind = rng.choice(['plain', 'numpy', 'count', 'full'])
    kw = {'count': dict(nb_color=len(set(c))), 'full': dict(nb_color=len(set(c)), nb_violations=v)}.get(kind, {})
    sol = cm.ColoringSolution(m, np.array(c) if kind == 'numpy' else list(c), **kw)
    run.check(bool(m.satisfy(sol)) == (v == 0), 'model:satisfy', lambda: info)
    good(m.evaluate(sol), c, 'model:evaluate:' + kind)
    good(m.evaluate(sol), c, 'model:evaluate-again')
    good(m.evaluate_from_encoding(list(c), 'colors'), c, 'model:encoding')
    run.check(m.count_violations(sol) == v, 'model:violations', lambda: info)
    d = m.get_dummy_solution()
    run.check(len(set(ints(d.colors))) == n and m.satisfy(d), 'model:dummy')
    good(m.evaluate(d), ints(d.colors), 'model:dummy')
    reg = m.get_attribute_register().dict_attribute_to_type['colors']
    run.check(reg['n'] == n and reg['arrity'] == n, 'model:register')
    obj = m.get_objective_register()
    run.check(set(obj.dict_objective_to_doc) == set(m.evaluate(sol)) and obj.objective_sense == ModeOptim.MAXIMIZATION and get_default_objective_setup(m).sense_function == ModeOptim.MAXIMIZATION, 'model:objectives')
    run.check(m.get_solution_type() is cm.ColoringSolution, 'model:type')
    run.check(m.number_of_nodes == n and list(m.nodes_name) == names and all(m.index_nodes_name[x] == k and m.index_to_nodes_name[k] == x for k, x in enumerate(names)), 'model:names')
    # reformatted: same classes, colours in order of appearance
    r = sol.to_reformated_solution()
    rc = ints(r.colors)
    seen = []
    for x in rc:
        if x not in seen:
            seen.append(x)
    run.check(seen == list(range(len(set(c)))) and all((rc[i] == rc[j]) == (c[i] == c[j]) for i in range(n) for j in range(n)), 'reformat', lambda: f'{rc} {info}')
    good(m.evaluate(r), rc, 'reformat:evaluate')
    run.check(ints(sol.colors) == c, 'reformat:aliasing')
    # copies, edits
    a, l = sol.copy(), sol.lazy_copy()
    run.check(ints(a.colors) == c and ints(l.colors) == c and a.problem is m, 'copy')
    good(m.evaluate(a), c, 'copy:evaluate')
    good(m.evaluate(l), c, 'copy:evaluate')
    k = rng.randrange(n)
    c2 = list(c)
    c2[k] = (c[k] + rng.randint(1, n)) % (n + 1)
    a.colors[k] = c2[k]
    run.check(ints(sol.colors) == c, 'copy:aliasing')
    run.hit('edit')
    good(m.evaluate(a), c2, 'edit')
    run.check(bool(m.satisfy(a)) == (conflicts(P, c2) == 0), 'edit:satisfy')
    good(m.evaluate(sol), c, 'edit-original')
    if n > 2:
        # the same nodes, other edges
        other = [(x, y) for x in range(n) for y in range(x) if rng.random() < 0.5]
        m2 = cm.ColoringProblem(Graph([(x, {}) for x in names], [(names[x], names[y], {}) for x, y in other], undirected=True))
        z = sol.copy()
        z.change_problem(m2)
        e = m2.evaluate(z)
        run.check(e['nb_colors'] == len(set(c)) and e['nb_violations'] == conflicts(other, c) and z.problem is m2, 'change-problem', lambda: f'{e} {other} {info}')
    run.case(info, bool(P))


def gc_color(rng, n, P):
    order = list(range(n))
    rng.shuffle(order)
    c = [None] * n
    for i in order:
        used = {c[b if a == i else a] for a, b in P if i in (a, b)}
        c[i] = next(x for x in range(n) if x not in used)
    return c


def g_parse(run, rng):
    n = rng.randint(1, 9)
    E = [tuple(rng.sample(range(n), 2)) for _ in range(rng.randint(0, 10))] if n > 1 else []
    if rng.random() < 0.6:
        E = list({tuple(sorted(e)): e for e in E}.values())
    text = f'{n} {len(E)}\n' + '\n'.join(f'{a} {b}' for a, b in E) + rng.choice(['', '\n', '\n\n'])
    d = tempfile.mkdtemp(prefix='vkgc')
    try:
        f = os.path.join(d, 'gc_x')
        open(f, 'w').write(text)
        ms = [cpa.parse(text), cpa.parse_file(f)]
    finally:
        shutil.rmtree(d)
    run.hit('parse')
    want = {frozenset(e) for e in E}
    c = [rng.randrange(n) for _ in range(n)]
    for m in ms:
        run.check(m.number_of_nodes == n and {frozenset(e[:2]) for e in m.graph.edges} == want, 'parse', lambda: repr(text))
        run.check(bool(m.satisfy(cm.ColoringSolution(m, list(c)))) == all(c[a] != c[b] for a, b in E), 'parse:satisfy', lambda: repr(text))
    run.case(text, bool(E))


# ------------------------------------------------------------------------------------------- search

def mutations(run, rng, m, sol):
    n = m.number_of_nodes
    one = lambda: MutationIntegerSpecificArrity(m, 'colors', [rng.randint(1, n) for _ in range(n)] if rng.random() < 0.3 else [n] * n, rng.choice([0.1, 0.4, 1.0]))
    return one() if rng.random() < 0.7 else BasicPortfolioMutation([one(), one()], np.ones(2))


def g_moves(run, rng):
    I = inst(rng)
    n, P, names, m = I
    sol = cm.ColoringSolution(m, [rng.randrange(n) for _ in range(n)])
    if rng.random() < 0.5:
        m.evaluate(sol)
    mut = mutations(run, rng, m, sol)
    info = f'{n} nodes {P}'
    for _ in range(rng.randint(3, 10)):
        before = ints(sol.colors)
        with quiet():
            if rng.random() < 0.5:
                sol, move, f = mut.mutate_and_compute_obj(sol)
            else:
                sol, move = mut.mutate(sol)
                f = None
        after = ints(sol.colors)
        run.hit('move')
        run.check(len(after) == n and all(0 <= x <= n for x in after), 'move:colours', lambda: f'{after} {info}')
        e = m.evaluate(sol)
        for x in (e, f):
            run.check(x is None or x['nb_colors'] == len(set(after)) and x['nb_violations'] == conflicts(P, after), 'move:objectives' if x is f else 'move:evaluate', lambda: f'{x} {before} -> {after} {info}')
        if rng.random() < 0.5:
            with quiet():
                sol = move.backtrack_local_move(sol)
            run.check(ints(sol.colors) == before, 'move:undo', lambda: f'{before} -> {after} -> {sol.colors}')
            e = m.evaluate(sol)
            run.check(e['nb_colors'] == len(set(before)) and e['nb_violations'] == conflicts(P, before), 'move:undo-evaluate', lambda: f'{e} {before} {info}')
    run.case((info, type(mut).__name__), bool(P))


def g_climb(run, rng):
    I = inst(rng, 3, 7)
    n, P, names, m = I
    sol = cm.ColoringSolution(m, [rng.randrange(n) for _ in range(n)])
    start = len(set(sol.colors)) + 100 * conflicts(P, sol.colors)
    mut = mutations(run, rng, m, sol)
    with quiet():
        s = hc.HillClimber(evaluator=m, mutator=mut, restart_handler=ls.RestartHandler(), mode_mutation=rng.choice(list(ls.ModeMutation)), params_objective_function=get_default_objective_setup(m), store_solution=True)
        rs = s.solve(sol, nb_iteration_max=80)
    run.hit('climb')
    for x, f in rs.list_solution_fits:
        c = ints(x.colors)
        run.check(f == -len(set(c)) - 100 * conflicts(P, c), 'climb:stored', lambda: f'{f} {c} {P}')
    b, f = rs.get_best_solution_fit()
    run.check(f >= -start, 'climb:worse-than-start', lambda: f'{f} {start}')
    run.case((repr(P), n, type(mut).__name__), bool(P))


def g_ga(run, rng):
    I = inst(rng, 4, 6, edges=2)
    n, P, names, m = I
    with quiet():
        rs = Ga(m, encoding=rng.choice(['colors', None]), objective_handling=ObjectiveHandling.AGGREGATE, objectives=['nb_colors', 'nb_violations'], objective_weights=[-1, -100], max_evals=200).solve()
    run.hit('ga')
    b, f = rs.get_best_solution_fit()
    c = ints(b.colors)
    run.check(len(c) == n and f == -len(set(c)) - 100 * conflicts(P, c), 'ga:fitness', lambda: f'{f} {c} {P}')
    run.case((n, repr(P)), True)


# ------------------------------------------------------------------------------------------- solvers

def g_greedy(run, rng):
    I = inst(rng)
    n, P, names, m = I
    s = gc.GreedyColoring(m) if rng.random() < 0.5 else gc.GreedyColoring(m, get_default_objective_setup(m))
    info = f'{n} nodes {P} {names}'
    run.hit('greedy')
    with quiet():
        k = storage(run, I, s.solve(), 'greedy', info)
        b = s.solve(strategy=gc.NXGreedyColoringMethod.best).get_best_solution()
    got = []
    for st in gc.NXGreedyColoringMethod:
        if st == gc.NXGreedyColoringMethod.best or rng.random() < 0.5:
            continue
        run.hit('greedy:single')
        with quiet():
            rs = s.solve(strategy=st, verbose=rng.random() < 0.5)
        x = storage(run, I, rs, 'greedy-' + st.name, info)
        deg = max([sum(i in e for e in P) for i in range(n)])
        run.check(x is None or x <= deg + 1, 'greedy:bound', lambda: f'{st} {x} {info}')
        c = ints(rs.get_best_solution().colors)
        run.check(sorted(set(c)) == list(range(len(set(c)))), 'greedy:colours', lambda: f'{c}')
        if st != gc.NXGreedyColoringMethod.random_sequential and x is not None:
            got.append(x)
    run.check(k is None or not got or k <= min(got), 'greedy:best-of', lambda: f'{k} {got} {info}')
    # cliques
    g = m.graph.to_networkx()
    run.hit('cliques')
    cut = rng.choice([None, 1, 2, 3, 200])
    with quiet():
        cl, not_all = ctb.compute_cliques(g, cut) if cut is not None or rng.random() < 0.5 else ctb.compute_cliques(g)
    adj = {frozenset((names[a], names[b])) for a, b in P}
    full = []
    for r in range(1, n + 1):
        for S in itertools.combinations(names, r):
            if all(frozenset(e) in adj for e in itertools.combinations(S, 2)) and not any(all(frozenset((x, y)) in adj for y in S) for x in names if x not in S):
                full.append(frozenset(S))
    gotc = [frozenset(c) for c in cl]
    run.check(len(set(gotc)) == len(gotc) and set(gotc) <= set(full), 'cliques:maximal', lambda: f'{cl} {info}')
    run.hit('cliques:cut', int(len(gotc) < len(full)))
    if not not_all:
        run.check(set(gotc) == set(full), 'cliques:all', lambda: f'{cl} of {full} {cut}')
    run.check(len(gotc) == (len(full) if cut is None else min(cut, len(full))), 'cliques:count', lambda: f'{len(gotc)} {len(full)} {cut}')
    if cut is None or cut > len(full):
        run.check(not not_all, 'cliques:complete', lambda: f'{len(full)} {cut}')
    run.case(info, bool(P))


def g_lp(run, rng):
    I = inst(rng, 2, 6)
    n, P, names, m = I
    kw = dict(greedy_start=rng.random() < 0.6, use_cliques=rng.random() < 0.5)
    run.hit('lp')
    run.hit('lp:cliques', int(kw['use_cliques'] and bool(P)))
    with quiet():
        s = lp.ColoringLP_MIP(m, rng.choice([None, get_default_objective_setup(m)]))
        if rng.random() < 0.5:
            s.init_model(**kw)
            rs = s.solve(ParametersMilp.default())
        else:
            rs = s.solve(ParametersMilp.default(), **kw)
    storage(run, I, rs, 'lp', f'{kw} {names}', optimal=True)
    run.case((n, repr(P), repr(kw), repr(names)), bool(P))


def params_cp(rng):
    p = ParametersCP.default()
    p.TimeLimit = p.TimeLimit_iter0 = 600
    p.intermediate_solution = rng.random() < 0.5
    return p


def g_cp(run, rng):
    mzn_dir()
    I = inst(rng, 2, 6, edges=1, dup=True)
    n, P, names, m = I
    model = rng.choice([cp.ColoringCPModel.DEFAULT, cp.ColoringCPModel.CLIQUES])
    kw = dict(cp_model=model, greedy_start=rng.random() < 0.6)
    if rng.random() < 0.3:
        kw['nb_colors'] = rng.randint(chromatic(n, P), n)
    if model == cp.ColoringCPModel.CLIQUES and rng.random() < 0.5:
        kw['nb_cliques'] = rng.randint(1, 3)
        run.hit('cp:few-cliques')
    p = params_cp(rng)
    info = f'{kw} intermediate {p.intermediate_solution} {names}'
    run.hit('cp')
    run.hit('cp:cliques', int(model == cp.ColoringCPModel.CLIQUES))
    with quiet():
        s = cp.ColoringCP(m, rng.choice([None, get_default_objective_setup(m)]))
        if rng.random() < 0.5:
            s.init_model(**kw)
            rs = s.solve(p)
        else:
            rs = s.solve(parameters_cp=p, **kw)
    storage(run, I, rs, 'cp-' + model.name, info, optimal=True)
    run.check(p.intermediate_solution or len(rs.list_solution_fits) == 1, 'cp:one-solution-asked')
    run.case((n, repr(P), info), True)


def g_cp_lns(run, rng):
    mzn_dir()
    I = inst(rng, 3, 7, edges=1)
    n, P, names, m = I
    kw = dict(greedy_start=rng.random() < 0.5)
    if rng.random() < 0.5:
        kw['cp_model'] = cp.ColoringCPModel.LNS
    with quiet():
        s = cp.ColoringCP(m, get_default_objective_setup(m))
        k0 = m.evaluate(s.get_solution(**kw))['nb_colors']
        frac = rng.choice([0, 0.5, 0.9])
        sol, f = s.solve_lns(fraction_to_fix=frac, nb_iteration=rng.randint(1, 3), parameters_cp=params_cp(rng), **kw)
    run.hit('cp:lns')
    k = proper(run, I, sol, 'cp-lns')
    run.check(k is None or f == {'nb_colors': k, 'nb_violations': 0}, 'cp-lns:evaluation', lambda: f'{f}')
    run.check(k is None or chromatic(n, P) <= k <= k0, 'cp-lns:worse', lambda: f'{k} {k0}')
    if frac == 0:
        run.check(k is None or k == chromatic(n, P), 'cp-lns:optimal', lambda: f'{k} {P}')
    run.case((n, repr(P), repr(kw), frac), True)


def g_lns(run, rng):
    I = inst(rng, 4, 7, edges=2)
    n, P, names, m = I
    par = get_default_objective_setup(m)
    frac = rng.choice([0.0, 0.3, 0.6, 0.9, 1.0])
    its = rng.randint(1, 3)
    use_cp = rng.random() < 0.4
    mod = cplns if use_cp else lplns
    method = rng.choice(list(mod.InitialColoringMethod))
    seen = []
    with quiet():
        init = mod.InitialColoring(m, method, par)
        st = init.get_starting_solution()
        k0 = storage(run, I, st, 'lns-start')
        run.check(k0 is None or method.name != 'DUMMY' or k0 == n, 'lns-start:dummy')

        class Init:
            def get_starting_solution(self):
                return st

        def post(f):
            class Post:
                def build_other_solution(self, rs):
                    r = f(rs)
                    seen[-1][1] = [ints(s.colors) for s, _ in rs.list_solution_fits]
                    return r
            return Post()
        if use_cp:
            mzn_dir()
            solver = cp.ColoringCP(m, par)
            solver.init_model(greedy_start=method.name != 'DUMMY', nb_colors=n if rng.random() < 0.3 else None, cp_model=rng.choice([cp.ColoringCPModel.DEFAULT, cp.ColoringCPModel.CLIQUES]))
            h = cplns.ConstraintHandlerFixColorsCP(m, frac)

            class Spy:
                def adding_constraint_from_results_store(self, cp_solver, child_instance, result_storage):
                    seen.append([ints(result_storage.get_best_solution().colors), None])
                    return h.adding_constraint_from_results_store(cp_solver, child_instance, result_storage)

                def remove_constraints_from_previous_iteration(self, *a, **k):
                    return h.remove_constraints_from_previous_iteration(*a, **k)
            pp = cplns.PostProcessSolutionColoring(m, par)
            rs = LNS_CP(m, solver, Init(), Spy(), post_process_solution=post(pp.build_other_solution), params_objective_function=par).solve_lns(params_cp(rng), its, nb_iteration_no_improvement=10)
            name = 'lns-cp'
        else:
            solver = lp.ColoringLP_MIP(m, par)
            solver.init_model(greedy_start=method.name != 'DUMMY', use_cliques=rng.random() < 0.3)
            n0 = len(solver.model.constrs)
            h = lplns.ConstraintHandlerFixColorsPyMip(m, frac)

            class Spy2:
                def adding_constraint_from_results_store(self, milp_solver, result_storage):
                    seen.append([ints(result_storage.get_best_solution_fit()[0].colors), None])
                    return h.adding_constraint_from_results_store(milp_solver, result_storage)

                def remove_constraints_from_previous_iteration(self, milp_solver, previous_constraints):
                    h.remove_constraints_from_previous_iteration(milp_solver, previous_constraints)
                    run.check(len(milp_solver.model.constrs) == n0, 'lns-lp:constraints-left')
            rs = LNS_MILP(m, solver, Init(), Spy2(), post_process_solution=post(lambda r: r), params_objective_function=par).solve_lns(ParametersMilp.default(), its)
            name = 'lns-lp'
    info = f'{n} nodes {P} {method} fraction {frac} {names}'
    run.hit(name)
    k = storage(run, I, rs, name, info)
    done = [s for s in seen if s[1] is not None]
    run.check(len(done) == its, name + ':iterations', lambda: f'{len(done)} of {its} {info}')
    for centre, outs in done:
        top = max(centre)
        need = int(frac * n) - sum(x == top for x in centre)
        for o in outs:
            # the fixed part keeps its colours, except the nodes of the last colour
            run.check(sum(x == y for x, y in zip(centre, o)) >= need or use_cp and o is outs[-1], name + ':neighbourhood', lambda: f'{o} around {centre} {info}')
    if k is not None and k0 is not None:
        run.check(chromatic(n, P) <= k <= k0, name + ':worse-than-start', lambda: f'{k} {k0} {info}')
        run.hit('lns:improved', int(k < k0))
        best = min([len(set(o)) for _, outs in done for o in outs] + [k0])
        run.check(k == best, name + ':best-lost', lambda: f'{k} {best} {info}')
        if frac == 0 and len(done) == its:
            run.check(k == chromatic(n, P), name + ':optimal', lambda: f'{k} {info}')
    run.case(info, True)


GROUPS = [('model', g_model, 900, 14000), ('parse', g_parse, 120, 1500), ('moves', g_moves, 250, 4000), ('climb', g_climb, 50, 800), ('ga', g_ga, 6, 60, 200_000_000), ('greedy', g_greedy, 300, 4000), ('lp', g_lp, 100, 1500, 200_000_000), ('cp', g_cp, 70, 600, 200_000_000), ('cp-lns', g_cp_lns, 12, 120, 200_000_000), ('lns', g_lns, 50, 500, 200_000_000)]

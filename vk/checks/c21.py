"""C21 Generic optimisation tools: result storages, Pareto fronts, mutations and local searches keep solutions, fitness and optimality consistent."""
import math
import random

from vk import rcpspgen as G
from vk.dostubs import quiet, install, empty_data_dirs

import numpy as np
install()
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.generic_tools import do_problem as dp
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import (Problem, Solution, EncodingRegister, ObjectiveRegister, TypeAttribute, ObjectiveHandling, ModeOptim, TypeObjective,
                                                                                  ParamsObjectiveFunction, RobustProblem, MethodAggregating, BaseMethodAggregating)
    from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage, ParetoFront, result_storage_to_pareto_front
    from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness
    from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator
    from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation, LocalMoveDefault
    from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import HillClimber, HillClimberPareto
    from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import SimulatedAnnealing, TemperatureSchedulingFactor
    from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, RestartHandlerLimit, ModeMutation
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation, BasicPortfolioMutationTrack
    from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation, SwapsLocalMove, TwoOptMove
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip, BitFlipMove
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_catalog import get_available_mutations
    from skdecide.builders.discrete_optimization.rcpsp.mutations.mutation_rcpsp import PermutationMutationRCPSP
    from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph

RULE = 'random storages, toy and project scheduling problems, mutations and local searches with random parameters, senses and objectives; non-trivial = more than one distinct fitness, or a permutation of at least 3 elements'
REQUIRED = {'adds': 4000, 'moves': 200, 'moves:several': 80, 'moves:swaps': 50, 'moves:reversals': 50, 'moves:bits': 50, 'pareto_points': 1000, 'mutations': 5000, 'undone': 4000, 'm:rcpsp': 1000, 'reach': 40, 'ls:restart_calls': 5000, 'ls:improvements': 100, 'ls:restarted': 30, 'ls:stored': 1500,
            'sa:trials': 10000, 'paretos': 50, 'graphs': 150, 'aggregations': 300, 'comparisons': 60}
ASSUMPTIONS = ['fitness ties may be broken either way', 'a mutation may work in place or on a copy', 'the heap of a storage is only specified for scalar fitness values']


# ---------------------------------------------------------------- a problem of permutations, booleans and integers
class Toy(Problem):
    def __init__(self, rng, sense=ModeOptim.MAXIMIZATION, handling=ObjectiveHandling.AGGREGATE, n=None, weights=None):
        self.n = n or rng.randint(1, 7)
        self.cost = [[rng.randint(0, 9) for _ in range(self.n)] for _ in range(self.n)]
        self.gain = [rng.randint(-5, 5) for _ in range(self.n)]
        self.ar = [rng.randint(1, 4) for _ in range(self.n)]
        self.lev = [[rng.randint(0, 6) for _ in range(5)] for _ in range(self.n)]
        self.sense, self.handling = sense, handling
        self.weights = weights or {'order': rng.choice([1, 2, -1]), 'gain': rng.choice([1, 3, -2]), 'level': rng.choice([1, -1, 0.5])}
        self.log = []

    def values(self, perm, bits, ints):
        return {'order': sum(self.cost[i][x] for i, x in enumerate(perm)), 'gain': sum(g for g, b in zip(self.gain, bits) if b), 'level': sum(l[k] for l, k in zip(self.lev, ints))}

    def evaluate(self, s):
        v = self.values(s.perm, s.bits, s.ints)
        self.log.append((s.key(), v))
        return v

    def satisfy(self, s):
        return sorted(s.perm) == list(range(self.n))

    def get_attribute_register(self):
        return EncodingRegister({'perm': {'name': 'perm', 'range': range(self.n), 'n': self.n, 'type': [TypeAttribute.PERMUTATION]},
                                 'bits': {'name': 'bits', 'n': self.n, 'type': [TypeAttribute.LIST_BOOLEAN]},
                                 'levels': {'name': 'ints', 'n': self.n, 'arrities': self.ar, 'type': [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY]}})

    def get_solution_type(self):
        return ToySol

    def get_objective_register(self):
        return ObjectiveRegister(objective_sense=self.sense, objective_handling=self.handling,
                                 dict_objective_to_doc={k: {'type': TypeObjective.OBJECTIVE, 'default_weight': self.weights[k]} for k in ('order', 'gain', 'level')})

    def rand(self, rng):
        return ToySol(self, rng.sample(range(self.n), self.n), [rng.randint(0, 1) for _ in range(self.n)], [rng.randint(1, a) for a in self.ar])


class ToySol(Solution):
    def __init__(self, problem, perm, bits, ints):
        self.problem, self.perm, self.bits, self.ints = problem, list(perm), list(bits), list(ints)

    def key(self):
        return tuple(self.perm), tuple(int(b) for b in self.bits), tuple(self.ints)

    def copy(self):
        return ToySol(self.problem, self.perm, self.bits, self.ints)

    def lazy_copy(self):
        s = ToySol(self.problem, [], [], [])
        s.perm, s.bits, s.ints = self.perm, self.bits, self.ints
        return s

    def change_problem(self, p):
        self.problem = p

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()


class Proj:
    """Project scheduling behind the same interface as the toy problem."""
    def __init__(self, rng, **kw):
        self.p = G.gen(rng, calendar=False, **kw)
        while any(v == 0 for v in self.p.res.values()) or not any(all(m['duration'] > 0 for m in ms.values()) for j, ms in self.p.modes.items() if 1 < j < self.p.n + 2):      # the mean reserve of a resource without capacity or over no time is not specified
            self.p = G.gen(rng, calendar=False, **kw)
        with quiet():
            self.model = G.build(self.p)

    def rand(self, rng):
        return G.rm.RCPSPSolution(problem=self.model, rcpsp_permutation=G.rand_perm(rng, self.p), rcpsp_modes=G.rand_modes(rng, self.p))

    def key(self, s):
        return tuple(int(x) for x in s.rcpsp_permutation), tuple(int(x) for x in s.rcpsp_modes)

    def fresh(self, key):
        return G.rm.RCPSPSolution(problem=self.model, rcpsp_permutation=list(key[0]), rcpsp_modes=list(key[1]))

    def values(self, key):
        with quiet():
            return self.model.evaluate(self.fresh(key))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def same(a, b):
    return set(a) == set(b) and all(close(a[k], b[k]) for k in a)


# ---------------------------------------------------------------- storages
def g_store(run, rng):
    mode = rng.choice(list(ModeOptim))
    better = max if mode == ModeOptim.MAXIMIZATION else min
    k = rng.choice([1, 2, 5, 1000])
    lim = rng.random() < 0.8
    vals = [rng.randint(-5, 9) if rng.random() < 0.7 else rng.random() * 10 for _ in range(12)]
    pool = [('s', i) for i in range(12)]
    fit = dict(zip(pool, vals))
    start = [(s, fit[s]) for s in rng.sample(pool, rng.choice([0, 1, 3, 6]))]
    if rng.random() < 0.3 and start:
        start.append(start[0])
    with quiet():
        st = ResultStorage(list_solution_fits=list(start), mode_optim=mode, limit_store=lim, nb_best_store=k)
    have = dict(start)
    for _ in range(rng.randint(0, 14)):
        if rng.random() < 0.1:
            st.finalize()
        s = rng.choice(pool)
        st.add_solution(s, fit[s])
        have[s] = fit[s]
        run.hit('adds')
        look(run, rng, st, have, fit, better, k, lim)
    if not have:
        run.check(st.get_best_solution() is None, 'store:best-of-nothing', lambda: '')
    st.finalize()
    want = sorted(have.values(), reverse=better is max)
    if lim:
        want = want[:k]
    run.check(list(st.heap) == want, 'store:best-values', lambda: f'{st.heap} want {want} {have} {mode} {k}')
    run.case((mode, start, k, lim, sorted(have.items())), len(set(have.values())) > 1)


def look(run, rng, st, have, fit, better, k, lim):
    best = better(have.values())
    top = {s for s in have if have[s] == best}
    run.check(st.best_solution in top, 'store:best-solution', lambda: f'{st.best_solution} want {top} {have}')
    run.check(st.get_best_solution() in top, 'store:get-best', lambda: f'{have}')
    run.eq(st.get_best_solution_fit()[1], best, 'store:get-best-fit')
    run.check({s for s, _ in st.list_solution_fits} == set(have) and all(fit[s] == f for s, f in st.list_solution_fits), 'store:content', lambda: f'{st.list_solution_fits} {have}')
    s, f = st.get_last_best_solution()
    run.check(s in top and f == best, 'store:last-best', lambda: f'{s} {top}')
    last = [x for x, g in st.list_solution_fits if g == best][-1]
    run.eq(s, last, 'store:last-best-is-last')
    s, f = st.get_random_best_solution()
    run.check(s in top and f == best, 'store:random-best', lambda: f'{s} {top}')
    s, f = st.get_random_solution()
    run.check(have.get(s, None) == f and (s not in top or len(top) == len(have)), 'store:random', lambda: f'{s} {top}')


class Named:
    def __init__(self, v, tag):
        self.v, self.tag = v, tag


def g_dups(run, rng):
    sols = [(Named([rng.randint(0, 1) for _ in range(2)], i), i) for i in range(rng.randint(0, 8))]
    with quiet():
        st = ResultStorage(list_solution_fits=list(sols))
        st.remove_duplicate_solutions('v')
    seen, want = set(), []
    for s, f in sols:
        if tuple(s.v) not in seen:
            seen.add(tuple(s.v))
            want.append(f)
    run.eq([f for _, f in st.list_solution_fits], want, 'store:duplicates')
    run.hit('dups')


def dom(a, b, sign):
    return all(sign * x >= sign * y for x, y in zip(a, b)) and tuple(a) != tuple(b)


def g_pareto(run, rng):
    mode = rng.choice(list(ModeOptim))
    sign = 1 if mode == ModeOptim.MAXIMIZATION else -1
    m = rng.randint(1, 3)
    pool = [tuple(rng.randint(0, 4) for _ in range(m)) for _ in range(10)]
    ids = list(range(10))
    tf = lambda i: TupleFitness(np.array(pool[i]), m)
    # order laws
    for _ in range(6):
        a, b = rng.choice(ids), rng.choice(ids)
        A, B = tf(a), tf(b)
        run.check(bool(A > B) == dom(pool[a], pool[b], 1) and bool(A < B) == dom(pool[a], pool[b], -1), 'fitness-order', lambda: f'{pool[a]} {pool[b]}')
        if pool[a] == pool[b]:
            run.check(A == B and A <= B and A >= B, 'fitness-equal', lambda: f'{pool[a]}')
        run.check(not (A <= B) or not dom(pool[a], pool[b], 1), 'fitness-le', lambda: f'{pool[a]} {pool[b]}')
        w = rng.choice([-1, 2])
        run.check(list((A * w).vector_fitness) == [w * x for x in pool[a]], 'fitness-scale', '')
        run.check(close(A.distance(B), math.dist(pool[a], pool[b])), 'fitness-distance', '')
    start = rng.sample(ids, rng.randint(1, 5))
    lim = rng.choice([1, 3, 1000])
    pf = ParetoFront(list_solution_fits=[(('p', i), tf(i)) for i in start], best_solution=None, mode_optim=mode, nb_best_store=lim)
    have = set(start)
    for _ in range(rng.randint(0, 12)):
        i = rng.choice(ids)
        pf.add_solution(('p', i), tf(i))
        have.add(i)
        run.hit('pareto_points')
        if rng.random() < 0.4:
            pf.finalize()
            front(run, pf, have, pool, sign)
        b = pf.best_solution[1]
        run.check(b in have and not any(dom(pool[j], pool[b], sign) for j in have), 'pareto:best-is-dominated', lambda: f'{pool[b]} {[pool[j] for j in have]} {mode}')
    pf.finalize()
    front(run, pf, have, pool, sign)
    ext = pf.compute_extreme_points()
    f = max if sign == 1 else min
    run.check([e[1].vector_fitness[k] for k, e in enumerate(ext)] == [f(pool[j][k] for j in have) for k in range(m)], 'pareto:extremes', lambda: f'{pool}')
    run.case((mode, pool, sorted(have)), len(have) > 1)


def front(run, pf, have, pool, sign):
    want = sorted(i for i in have if not any(dom(pool[j], pool[i], sign) for j in have))
    got = sorted(s[1] for s, _ in pf.paretos)
    run.hit('paretos')
    run.check(got == want and pf.len_pareto_front() == len(want), 'pareto:front', lambda: f'got {[pool[i] for i in got]} want {[pool[i] for i in want]} of {[pool[i] for i in have]}')
    run.check(all(tuple(f.vector_fitness) == pool[s[1]] for s, f in pf.paretos), 'pareto:fitness', '')


def g_compare(run, rng):
    """Converting storages to fronts, merging them and re-evaluating results on other problems."""
    mode = rng.choice(list(ModeOptim))
    sign = 1 if mode == ModeOptim.MAXIMIZATION else -1
    toy = Toy(rng, sense=mode, handling=ObjectiveHandling.MULTI_OBJ)
    others = [Toy(rng, sense=mode, n=toy.n) for _ in range(2)]
    for o in others:
        o.ar = toy.ar
    names = ['order', 'gain', 'level']
    stores, allsols = [], []
    for k in range(rng.randint(1, 3)):
        sols = {toy.rand(rng) for _ in range(rng.randint(1, 5))}
        l = [(s, toy.evaluate_mobj_from_dict(toy.evaluate(s))) for s in sols]
        run.check(all(tuple(f.vector_fitness) == tuple(toy.values(*s.key())[n] for n in sorted(names)) and tuple(toy.evaluate_mobj(s).vector_fitness) == tuple(f.vector_fitness) for s, f in l), 'evaluate_mobj', '')
        l = [(s, TupleFitness(np.array([toy.values(*s.key())[n] for n in names]), 3)) for s, _ in l]
        stores.append(ResultStorage(list_solution_fits=l, mode_optim=mode))
        allsols += [s.key() for s in sols]
    vec = {k: tuple(toy.values(*k)[n] for n in names) for k in allsols}
    st = stores[0]
    keys = {s.key() for s, _ in st.list_solution_fits}
    with quiet():
        pf = result_storage_to_pareto_front(st, problem=rng.choice([None, toy]))
    run.check({s.key() for s, _ in pf.paretos} == {k for k in keys if not any(dom(vec[j], vec[k], sign) for j in keys)}, 'convert:front', lambda: f'{vec} {mode}')
    with quiet():
        cmp_ = ResultComparator(stores, [f'r{i}' for i in range(len(stores))], names, [1, 1, 1], test_problems=rng.choice([None, others]))
        sp = cmp_.generate_super_pareto()
    run.check({s.key() for s, _ in sp.paretos} == {k for k in vec if not any(dom(vec[j], vec[k], sign) for j in vec)}, 'convert:merged-front', lambda: f'{vec} {mode}')
    for n, nm in enumerate(names):
        b = cmp_.get_best_by_objective_by_result_storage(nm)
        f = max if sign == 1 else min
        for i, s in enumerate(stores):
            run.check(b[f'r{i}'][1].vector_fitness[n] == f(vec[x.key()][n] for x, _ in s.list_solution_fits), 'compare:best-by-objective', '')
    if cmp_.test_problems is not None:
        for i, s in enumerate(stores):
            k = s.get_best_solution().key()
            for nm in names:
                run.eq(cmp_.reevaluated_results[i][nm], [o.values(*k)[nm] for o in others], 'compare:re-evaluated')
        run.check(all(s.problem is toy for st in stores for s, _ in st.list_solution_fits), 'compare:solutions-moved-to-another-problem', '')
    run.hit('comparisons')
    run.case((mode, sorted(vec.items())), len(set(vec.values())) > 1)


def g_aggregate(run, rng):
    toy = Toy(rng, sense=rng.choice(list(ModeOptim)), handling=rng.choice([ObjectiveHandling.SINGLE, ObjectiveHandling.AGGREGATE, ObjectiveHandling.MULTI_OBJ]))
    s = toy.rand(rng)
    v = toy.values(*s.key())
    params = None
    objs, ws = ['order', 'gain', 'level'], [toy.weights[k] for k in ('order', 'gain', 'level')]
    h, sense = toy.handling, toy.sense
    if rng.random() < 0.6:
        objs = rng.sample(objs, rng.randint(1, 3))
        ws = [rng.choice([-2, -1, 1, 0.5]) for _ in objs]
        h, sense = rng.choice([ObjectiveHandling.SINGLE, ObjectiveHandling.AGGREGATE, ObjectiveHandling.MULTI_OBJ]), rng.choice(list(ModeOptim))
        params = ParamsObjectiveFunction(objective_handling=h, objectives=objs, weights=ws, sense_function=sense)
    with quiet():
        fs, fd, got = dp.build_aggreg_function_and_params_objective(toy, params)
        gs, gd = dp.build_evaluate_function_aggregated(toy, params)
    run.check((got.objective_handling, list(got.objectives), list(got.weights), got.sense_function) == (h, objs, ws, sense), 'aggregate:parameters', lambda: f'{got}')
    terms = [v[o] * w for o, w in zip(objs, ws)]
    for f in (lambda: fs(s), lambda: fd(dict(v)), lambda: gs(s), lambda: gd(dict(v))):
        x = f()
        run.hit('aggregations')
        if h == ObjectiveHandling.MULTI_OBJ:
            run.check(x.size == len(objs) and all(close(a, b) for a, b in zip(x.vector_fitness, terms)), 'aggregate:multi', lambda: f'{x} {terms}')
        else:
            run.check(close(x, terms[0] if h == ObjectiveHandling.SINGLE else sum(terms)), 'aggregate:value', lambda: f'{x} {terms} {h}')
    k = rng.randint(1, 4)
    probs = [Toy(rng, n=toy.n) for _ in range(k)]
    for p in probs:
        p.lev = toy.lev if rng.random() < 0.3 else p.lev
    pond = [rng.randint(0, 3) for _ in range(k)]
    q = rng.choice([0, 30, 50, 90, 100])
    b = rng.choice(list(BaseMethodAggregating))
    rp = RobustProblem(probs, MethodAggregating(b, percentile=q, ponderation=np.array(pond)))
    got = rp.evaluate(s)
    for o in v:
        xs = sorted(p.values(*s.key())[o] for p in probs)
        ys = [p.values(*s.key())[o] for p in probs]
        want = {'MEAN': sum(xs) / k, 'MEDIAN': (xs[(k - 1) // 2] + xs[k // 2]) / 2, 'MIN': xs[0], 'MAX': xs[-1], 'PONDERATION': sum(a * c for a, c in zip(ys, pond))}.get(b.name)
        if b.name == 'PERCENTILE':
            pos = q / 100 * (k - 1)
            lo = int(pos)
            want = xs[lo] + (pos - lo) * (xs[min(lo + 1, k - 1)] - xs[lo])
        run.check(close(float(got[o]), want), 'robust:' + b.name, lambda: f'{got} {ys}')
    run.check(rp.satisfy(s) and rp.get_solution_type() is ToySol, 'robust:delegation', '')
    run.case((objs, ws, h, b, v), True)


# ---------------------------------------------------------------- mutations
def g_mutation(run, rng):
    """A mutation yields a legal neighbour whose objectives are those of its encoding, and its move can be undone and redone."""
    proj = rng.random() < 0.5
    if proj:
        pr = Proj(rng)
        model, sol = pr.model, pr.rand(rng)
        key, values, n, ar = pr.key, pr.values, pr.p.n, [len(pr.p.modes[j]) for j in range(2, pr.p.n + 2)]
        PA, IA = 0, 1
        cand = [('shuffle', PermutationShuffleMutation, {}), ('partial', PermutationPartialShuffleMutation, {'proportion': rng.choice([0.2, 0.5, 1.0])}), ('swap', PermutationSwap, {'nb_swap': rng.randint(1, 4)}),
                ('2opt', TwoOptMutation, {}), ('ints', MutationIntegerSpecificArrity, {'probability_flip': rng.choice([0.1, 0.6, 1.0])})]
    else:
        toy = Toy(rng)
        model, sol = toy, toy.rand(rng)
        key, values, n, ar = (lambda s: s.key()), (lambda k: toy.values(*k)), toy.n, toy.ar
        PA, IA = 0, 2
        cand = [('shuffle', PermutationShuffleMutation, {}), ('partial', PermutationPartialShuffleMutation, {'proportion': rng.choice([0.2, 0.5, 1.0])}), ('swap', PermutationSwap, {'nb_swap': rng.randint(1, 4)}),
                ('2opt', TwoOptMutation, {}), ('bits', MutationBitFlip, {'probability_flip': rng.choice([0, 0.1, 0.6, 1.0])}), ('ints', MutationIntegerSpecificArrity, {'probability_flip': rng.choice([0.1, 0.6, 1.0])})]
    names, muts = [], []
    with quiet():
        for nm, c, kw in cand:
            if proj and rng.random() < 0.5:
                names.append(nm)
                muts.append(PermutationMutationRCPSP.build(model, sol, other_mutation=c, **kw))
            else:
                names.append(nm)
                muts.append(c.build(model, sol, **kw))
        i = rng.randrange(len(muts))
        pick = rng.random()
        if pick < 0.25:
            w = [rng.choice([0, 1, 2.5]) for _ in muts]
            w[i] = 1
            mut, kinds = rng.choice([BasicPortfolioMutation, BasicPortfolioMutationTrack])(muts, rng.choice([w, np.array(w)])), {names[j] for j in range(len(muts)) if w[j] > 0}
        elif pick < 0.5:
            _, cat = get_available_mutations(model, sol)
            c, kw = rng.choice(cat)
            mut, kinds = c.build(model, sol, **kw), {'any'}
        else:
            mut, kinds = muts[i], {names[i]}
    for _ in range(8):
        before = key(sol)
        with quiet():
            if rng.random() < 0.5:
                new, move = mut.mutate(sol)
                after = key(new)
                obj = model.evaluate(new)
            else:
                new, move, obj = mut.mutate_and_compute_obj(sol)
                after = key(new)
        run.hit('mutations')
        run.hit('m:rcpsp', 1 if proj else 0)
        for x in kinds:
            run.hit('m:' + x)
        what = type(mut).__name__
        run.check(same(obj, values(after)), f'mutation:{what}:objectives-of-another-solution', lambda: f'{obj} {values(after)} {before} -> {after}')
        run.check(sorted(after[PA]) == list(range(n)), f'mutation:{what}:not-a-permutation', lambda: f'{after}')
        run.check(all(1 <= x <= a for x, a in zip(after[IA], ar)) and len(after[IA]) == n, f'mutation:{what}:illegal-integers', lambda: f'{after} {ar}')
        if not proj:
            run.check(set(after[1]) <= {0, 1} and len(after[1]) == n, f'mutation:{what}:illegal-bits', lambda: f'{after}')
        changed = {j for j in range(len(before)) if before[j] != after[j]}
        part = {'shuffle': PA, 'partial': PA, 'swap': PA, '2opt': PA, 'bits': 1, 'ints': IA}
        if 'any' not in kinds:
            run.check(changed <= {part[k] for k in kinds}, f'mutation:{what}:changes-something-else', lambda: f'{kinds} {before} {after}')
        if new is not sol:
            run.check(key(sol) == before, f'mutation:{what}:given-solution-changed', lambda: f'{before} {key(sol)}')
            with quiet():
                run.check(same(model.evaluate(sol), values(before)), f'mutation:{what}:given-solution-spoilt', lambda: f'{model.evaluate(sol)} {values(before)}')
        with quiet():
            back = move.backtrack_local_move(new)
            run.check(key(back) == before, f'mutation:{what}:undo', lambda: f'{before} -> {after} -> {key(back)}')
            run.check(same(model.evaluate(back), values(before)), f'mutation:{what}:undone-objectives', lambda: f'{model.evaluate(back)} {values(before)}')
            redo = move.apply_local_move(back)
            run.check(key(redo) == after, f'mutation:{what}:redo', lambda: f'{before} -> {after} -> {key(redo)}')
            run.check(same(model.evaluate(redo), values(after)), f'mutation:{what}:redone-objectives', lambda: '')
        run.hit('undone')
        if rng.random() < 0.5:
            with quiet():
                sol = move.backtrack_local_move(redo)
        else:
            sol = redo
    run.case((proj, sorted(kinds), before, after), n >= 3)


def g_moves(run, rng):
    """Moves made of several parts are applied part after part, undone and redone exactly."""
    toy = Toy(rng, n=rng.randint(2, 7))
    sol = toy.rand(rng)
    n = toy.n
    before = sol.key()
    k = rng.choice([0, 1, 2, 2, 3, 4])
    kind = rng.choice(['swaps', 'reversals', 'bits'])
    parts = [tuple(sorted((rng.randrange(n), rng.randrange(n)))) for _ in range(k)]
    want = [list(x) for x in before]
    perm = want[0]
    if kind == 'swaps':
        parts = [rng.choice([p, p[::-1]]) for p in parts]
        move = SwapsLocalMove('perm', list(parts))
        for i, j in parts:
            perm[i], perm[j] = perm[j], perm[i]
    elif kind == 'reversals':
        move = TwoOptMove('perm', list(parts))
        for i, j in parts:
            perm[i:j + 1] = perm[i:j + 1][::-1]
    else:
        idx = [rng.randrange(n) for _ in range(k)]
        parts = idx
        move = BitFlipMove('bits', rng.choice([list, np.array])(idx) if idx else [])
        for i in idx:
            want[1][i] = 1 - want[1][i]
    want = tuple(tuple(x) for x in want)
    run.hit('moves')
    run.hit('moves:' + kind)
    run.hit('moves:several', int(k > 1))
    with quiet():
        a = move.apply_local_move(sol)
        ka = a.key()
        run.check(tuple(tuple(x) for x in ka) == want, 'moves:apply', lambda: f'{kind} {parts} {before} -> {ka}')
        for _ in range(2):
            a = move.backtrack_local_move(a)
            kb = a.key()
            run.check(kb == before, 'moves:undo', lambda: f'{kind} {parts} {before} -> {ka} -> {kb}')
            a = move.apply_local_move(a)
            kc = a.key()
            run.check(kc == ka, 'moves:redo', lambda: f'{kind} {parts} {before} -> {ka} -> {kc}')
    run.case((kind, parts, before), k > 1)


def g_reach(run, rng):
    """Every element can be moved, every value reached."""
    toy = Toy(rng, n=rng.randint(2, 5))
    s0 = toy.rand(rng)
    n = toy.n
    with quiet():
        kind = rng.choice(['swap', '2opt', 'shuffle', 'partial', 'bits', 'ints'])
        mut = {'swap': lambda: PermutationSwap(toy, s0, nb_swap=1), '2opt': lambda: TwoOptMutation(toy, s0), 'shuffle': lambda: PermutationShuffleMutation(toy, s0), 'partial': lambda: PermutationPartialShuffleMutation(toy, s0, proportion=0.7),
               'bits': lambda: MutationBitFlip(toy, probability_flip=0.3, **rng.choice([{}, {'attribute': 'bits'}])),
               'ints': lambda: MutationIntegerSpecificArrity(toy, probability_flip=0.3, **rng.choice([{}, {'attribute': 'ints', 'arrities': list(toy.ar)}]))}[kind]()
    seen = set()
    for _ in range(700):
        with quiet():
            seen.add(mut.mutate(s0.copy())[0].key())
    run.hit('reach')
    run.hit('reach:' + kind)
    b = s0.key()
    if kind in ('swap', '2opt'):
        for i in range(n):
            for j in range(i + 1, n):
                p = list(b[0])
                if kind == 'swap':
                    p[i], p[j] = p[j], p[i]
                else:
                    p[i:j + 1] = p[i:j + 1][::-1]
                run.check((tuple(p), b[1], b[2]) in seen, f'reach:{kind}', lambda: f'{b[0]} {p}')
        if kind == 'swap':
            run.check(all(sum(x != y for x, y in zip(k[0], b[0])) in (0, 2) for k in seen), 'reach:swap-too-far', '')
    elif kind == 'shuffle' or kind == 'partial' and int(0.7 * n) > 1:
        for i in range(n):
            want = set(range(n))
            run.check({k[0][i] for k in seen} == want, f'reach:{kind}', lambda: f'{i} {seen}')
        if kind == 'partial':
            run.check(all(sum(x != y for x, y in zip(k[0], b[0])) <= int(0.7 * n) for k in seen), 'reach:partial-too-far', '')
    elif kind == 'bits':
        run.check(all({k[1][i] for k in seen} == {0, 1} for i in range(n)), 'reach:bits', '')
    elif kind == 'ints':
        run.check(all({k[2][i] for k in seen} == set(range(1, toy.ar[i] + 1)) for i in range(n)), 'reach:ints', lambda: f'{toy.ar} {seen}')
    run.case((kind, b), n >= 3)


# ---------------------------------------------------------------- local searches
def watch(run, base, obj_of, what, greedy, sense, limit=None):
    """A restart handler that observes the state of the search once per iteration."""
    class W(base):
        prev = None
        wait_g = wait_l = 0

        def update(self, nv, fitness, improved_global, improved_local):
            self.flags = (improved_global, improved_local)
            self.wait_g = 0 if improved_global else self.wait_g + 1
            self.wait_l = 0 if improved_local else self.wait_l + 1
            if improved_global:
                run.hit('ls:improvements')
            return super().update(nv, fitness, improved_global, improved_local)

        def restart(self, cur, cur_obj):
            run.hit('ls:restart_calls')
            o = obj_of(cur)
            run.check(close(o, cur_obj), what + ':current-objective', lambda: f'{cur_obj} is not {o}')
            if greedy and self.prev is not None:
                run.check(not worse(cur_obj, self.prev, sense), what + ':accepted-worse', lambda: f'{self.prev} -> {cur_obj}')
                run.check(self.flags[1] == (not close(cur_obj, self.prev)), what + ':local-improvement-flag', lambda: f'{self.flags} {self.prev} {cur_obj}')
            s, f = super().restart(cur, cur_obj)
            if limit is not None:
                must = self.wait_g > limit or self.wait_l > limit
                if must:
                    self.wait_g = self.wait_l = 0
                    run.hit('ls:restarted')
                    run.check(close(obj_of(s), self.bestseen()), what + ':restart-not-from-best', lambda: f'{obj_of(s)} {self.bestseen()}')
                else:
                    run.check(s is cur, what + ':early-restart', lambda: '')
            run.check(close(obj_of(s), f), what + ':restart-fitness', lambda: f'{f} is not {obj_of(s)}')
            self.prev = f
            return s, f
    return W


def worse(a, b, sense):
    return not close(a, b) and (a > b if sense == ModeOptim.MINIMIZATION else a < b)


def g_search(run, rng):
    proj = rng.random() < 0.35
    sense = rng.choice(list(ModeOptim))
    store = rng.random() < 0.5
    iters = rng.choice([0, 1, 30, 80])
    default = False
    if proj:
        pr = Proj(rng)
        model, init, key, values = pr.model, pr.rand(rng), pr.key, pr.values
        names = ['makespan', 'mean_resource_reserve']
        log = []
        real = model.evaluate

        def ev(s):
            v = real(s)
            log.append(v)
            return v
        model.evaluate = ev
        logv = lambda: log
    else:
        model = Toy(rng, sense=sense, handling=rng.choice([ObjectiveHandling.SINGLE, ObjectiveHandling.AGGREGATE]))
        init, key, values = model.rand(rng), (lambda s: s.key()), (lambda k: model.values(*k))
        names = ['order', 'gain', 'level']
        logv = lambda: [v for _, v in model.log]
        default = rng.random() < 0.3
    if default:
        params, h, objs, ws = None, model.handling, names, [model.weights[k] for k in names]
    else:
        objs = rng.sample(names, rng.randint(1, len(names)))
        ws = [rng.choice([-1, 1, 2]) for _ in objs]
        h = rng.choice([ObjectiveHandling.SINGLE, ObjectiveHandling.AGGREGATE])
        params = ParamsObjectiveFunction(objective_handling=h, objectives=objs, weights=ws, sense_function=sense)
    agg = lambda v: v[objs[0]] * ws[0] if h == ObjectiveHandling.SINGLE else sum(v[o] * w for o, w in zip(objs, ws))
    cur = {'quiet': False}

    def obj_of(s):
        return agg(values(key(s)))
    with quiet():
        cat = get_available_mutations(model, init)[1]
        muts = [c.build(model, init, **kw) for c, kw in rng.sample(cat, rng.randint(1, len(cat)))]
        mut = muts[0] if len(muts) == 1 else BasicPortfolioMutation(muts, np.ones(len(muts)))
        kind = rng.choice(['hc', 'sa'])
        what = 'HillClimber' if kind == 'hc' else 'SimulatedAnnealing'
        limit = rng.choice([None, 3, 10])
        other = model.rand(rng) if not proj else pr.rand(rng)
        first = rng.choice([init.copy(), other]) if limit is not None else None   # the handler may have been built for another solution
        W = watch(run, RestartHandlerLimit if limit is not None else RestartHandler, obj_of, what, kind == 'hc', sense, limit)
        rh = W(limit, first, obj_of(first)) if limit is not None else W()
        rh.bestseen = lambda: (max if sense == ModeOptim.MAXIMIZATION else min)(map(agg, logv()))
        mm = rng.choice(list(ModeMutation))
        before = key(init)
        del logv()[:]
        if not proj:
            model.log.clear()
        if kind == 'hc':
            ls = HillClimber(model, mut, rh, mm, params_objective_function=params, store_solution=store)
        else:
            th = TemperatureSchedulingFactor(rng.choice([0.1, 2, 50]), rh, rng.choice([0.5, 0.99]))
            t0, co = th.temperature, th.coefficient
            ls = SimulatedAnnealing(model, mut, rh, th, mm, params_objective_function=params, store_solution=store)
        if proj:
            log.clear()
        res = ls.solve(init, iters)
        seen = [agg(v) for v in logv()]
    run.check(key(init) == before, what + ':initial-solution-changed', lambda: f'{before} {key(init)}')
    if kind == 'sa':
        run.check(close(th.temperature, t0 * co ** iters), what + ':temperature', lambda: f'{th.temperature} {t0} {co} {iters}')
    best = (max if sense == ModeOptim.MAXIMIZATION else min)(seen)
    run.hit('ls:stored', len(res.list_solution_fits))
    for s, f in res.list_solution_fits:
        run.check(close(obj_of(s), f), what + ':stored-fitness', lambda: f'{f} is not {obj_of(s)} {key(s)}')
    run.check(close(obj_of(res.best_solution), best), what + ':best-solution', lambda: f'{obj_of(res.best_solution)} want {best} {sense}')
    s, f = res.get_best_solution_fit()
    run.check(close(f, best), what + ':best-of-results', lambda: f'{f} {best} {sense}')
    run.check(close(obj_of(res.get_best_solution()), best), what + ':get-best', lambda: '')
    keys = [key(s) for s, _ in res.list_solution_fits]
    run.check(before in keys, what + ':initial-not-stored', lambda: '')
    run.check(len(set(keys)) == len(keys), what + ':stored-twice', lambda: f'{keys}')
    if store and not proj:
        run.check(set(keys) >= {k for k, _ in model.log}, what + ':not-all-stored', lambda: '')
    if not store:
        fs = [f for _, f in res.list_solution_fits]
        run.check(all(worse(a, b, sense) for a, b in zip(fs, fs[1:])), what + ':stored-without-improvement', lambda: f'{fs} {sense}')
    run.case((kind, sense, objs, ws, before, iters, len(keys)), iters > 1)


def g_paretols(run, rng):
    sense = rng.choice(list(ModeOptim))
    sign = 1 if sense == ModeOptim.MAXIMIZATION else -1
    toy = Toy(rng, sense=sense, handling=ObjectiveHandling.MULTI_OBJ)
    init = toy.rand(rng)
    names = ['order', 'gain', 'level']
    params = None
    objs, ws = names, [toy.weights[k] for k in names]
    if rng.random() < 0.6:
        objs = rng.sample(names, rng.randint(1, 3))
        ws = [rng.choice([-1, 1]) for _ in objs]
        params = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ, objectives=objs, weights=ws, sense_function=sense)
    vec = lambda s: tuple(toy.values(*s.key())[o] * w for o, w in zip(objs, ws))
    before = init.key()
    with quiet():
        muts = [c.build(toy, init, **kw) for c, kw in get_available_mutations(toy, init)[1]]
        fit = TupleFitness(np.array(vec(init)), len(objs))
        rh = RestartHandlerLimit(rng.choice([3, 20]), init, fit)
        hc = HillClimberPareto(toy, BasicPortfolioMutation(muts, np.ones(len(muts))), rh, rng.choice(list(ModeMutation)), params_objective_function=params, store_solution=True)
        res = hc.solve(init, rng.choice([1, 40, 100]), update_iteration_pareto=rng.choice([1, 7, 1000]))
    run.check(init.key() == before, 'ParetoSearch:initial-solution-changed', '')
    l = [(s.key(), vec(s), tuple(f.vector_fitness)) for s, f in res.list_solution_fits]
    run.check(all(all(close(a, b) for a, b in zip(v, f)) for _, v, f in l), 'ParetoSearch:stored-fitness', lambda: f'{l}')
    want = sorted(k for k, v, _ in l if not any(dom(w, v, sign) for _, w, _ in l))
    run.check(sorted(s.key() for s, _ in res.paretos) == want, 'ParetoSearch:front', lambda: f'{[x[1] for x in l]} {[f.vector_fitness for _, f in res.paretos]} {sense}')
    run.check(before in {k for k, _, _ in l}, 'ParetoSearch:initial-not-stored', '')
    run.hit('paretos')
    run.case((sense, objs, ws, before, len(l)), len(l) > 1)


class Worsen(Mutation):
    """Each neighbour is worse by a fixed amount."""
    def __init__(self, problem, d):
        self.problem, self.d = problem, d

    def mutate(self, s):
        t = s.copy()
        t.ints = [x + self.d for x in s.ints]
        return t, LocalMoveDefault(s, t)

    def mutate_and_compute_obj(self, s):
        t, m = self.mutate(s)
        return t, m, self.problem.evaluate(t)


def g_boltzmann(run, rng):
    """Simulated annealing accepts a move that is worse by d with probability exp(-d/T), an equal one always."""
    class Line(Toy):
        def values(self, perm, bits, ints):
            return {'order': 0, 'gain': 0, 'level': ints[0]}
    sense = rng.choice(list(ModeOptim))
    toy = Line(rng, n=1)
    init = ToySol(toy, [0], [0], [0])
    d = rng.choice([0, 1, 3])
    T = rng.choice([0.5, 1.5, 4])
    step = d if sense == ModeOptim.MINIMIZATION else -d
    acc = [0, 0]

    class Back(RestartHandler):
        def restart(self, cur, obj):
            acc[0] += 1
            acc[1] += cur is not self.home
            return self.home, 0
    rh = Back()
    params = ParamsObjectiveFunction(ObjectiveHandling.SINGLE, ['level'], [1], sense)
    with quiet():
        sa = SimulatedAnnealing(toy, Worsen(toy, step), rh, TemperatureSchedulingFactor(T, rh, 1.0), rng.choice(list(ModeMutation)), params_objective_function=params)
        rh.home = init
        # the first current solution is a copy made by the search: let it be replaced by the first restart
        n = 3000
        sa.solve(init, n + 1)
    p = math.exp(-d / T)
    run.hit('sa:trials', n)
    sd = math.sqrt(n * p * (1 - p)) + 1
    run.check(abs(acc[1] - n * p) < 6 * sd + 3, 'SimulatedAnnealing:acceptance-rate', lambda: f'{acc} want {n * p} +- {sd} d={d} T={T} {sense}')
    run.case((sense, d, T), d > 0)


# ---------------------------------------------------------------- graphs
def g_graph(run, rng):
    n = rng.randint(1, 7)
    names = rng.sample(range(20), n) if rng.random() < 0.5 else [f'v{i}' for i in range(n)]
    und = rng.random() < 0.4
    es = {}
    for _ in range(rng.randint(0, 10)):
        a, b = rng.choice(names), rng.choice(names)
        if a != b and (a, b) not in es and not (und and (b, a) in es):
            es[a, b] = {'weight': rng.randint(0, 9)}
    nodes = [(x, {'k': i}) for i, x in enumerate(names)]
    with quiet():
        g = Graph(list(nodes), [(a, b, d) for (a, b), d in es.items()], undirected=und)
    full = dict(es)
    if und:
        full.update({(b, a): d for (a, b), d in es.items()})
    run.check(set(g.get_edges()) == set(full) and sorted(g.get_nodes()) == sorted(names), 'graph:content', lambda: f'{es}')
    succ = {x: {b for a, b in full if a == x} for x in names}
    for x in names:
        run.check(set(g.get_neighbors(x)) == succ[x], 'graph:neighbors', lambda: f'{x} {es}')
        run.check(set(g.get_predecessors(x)) == {a for a, b in full if b == x}, 'graph:predecessors', lambda: f'{x} {es}')
        run.eq(g.get_attr_node(x, 'k'), names.index(x), 'graph:node-attribute')
        run.check(g.get_attr_node(x, 'no') is None, 'graph:missing-attribute', '')
        for y in names:
            run.eq(g.get_attr_edge(x, y, 'weight'), full.get((x, y), {}).get('weight'), 'graph:edge-attribute')
        if not und:
            reach, st = set(), [x]
            while st:
                for a, b in full:
                    if b == st[0] and a not in reach:
                        reach.add(a)
                        st.append(a)
                st.pop(0)
            run.check(set(g.precedessors_nodes(x)) == reach - {x}, 'graph:ancestors', lambda: f'{x} {es}')
    if not und:
        left, live = set(names), True
        while live:
            free = {x for x in left if not (succ[x] & left)}
            live = bool(free)
            left -= free
        run.check(bool(g.check_loop()) == bool(left), 'graph:loop', lambda: f'{es}')
    nxg = g.to_networkx()
    run.check(set(nxg.nodes) == set(names) and {(a, b): nxg[a][b]['weight'] for a, b in full} == {k: d['weight'] for k, d in full.items()} and nxg.is_directed() != und, 'graph:networkx', lambda: f'{es}')
    run.hit('graphs')
    run.case((names, sorted(map(str, es))), n >= 3)


GROUPS = [('store', g_store, 800, 6000), ('dups', g_dups, 40, 600), ('pareto', g_pareto, 250, 4000), ('compare', g_compare, 120, 2000), ('aggregate', g_aggregate, 200, 3000), ('mutation', g_mutation, 2000, 12000),
          ('moves', g_moves, 300, 4000), ('reach', g_reach, 100, 400), ('search', g_search, 600, 3000), ('paretols', g_paretols, 60, 800), ('boltzmann', g_boltzmann, 12, 100), ('graph', g_graph, 250, 4000)]

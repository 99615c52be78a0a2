"""C38 Travelling thief, robustness tool, comparison of results and look-up policies, against independent computations."""
import copy
import math
import os
import random
import sys
import tempfile
from unittest.mock import MagicMock

import numpy as np

from vk import rcpspgen as G
from vk.dostubs import quiet, install, empty_data_dirs

install()
try:
    import seaborn  # noqa: F401
except ImportError:
    _m = MagicMock(name='seaborn')      # only its plots are called: the arguments are what is judged
    _m.__spec__ = None
    sys.modules['seaborn'] = _m
with quiet(), empty_data_dirs():
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    from skdecide.builders.discrete_optimization.ttp import ttp_model as T, ttp_parser
    from skdecide.builders.discrete_optimization.ttp.solver import mutation_ttp as M
    from skdecide.builders.discrete_optimization.generic_tools.ls import local_search as ls, hill_climber as hc, simulated_annealing as sa
    from skdecide.builders.discrete_optimization.generic_tools.robustness import robustness_tool as R
    from skdecide.builders.discrete_optimization.generic_tools.policy_sk import LookUpPolicy
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import TupleFitness, ModeOptim, ParamsObjectiveFunction, get_default_objective_setup
    from skdecide.builders.discrete_optimization.generic_tools.result_storage import resultcomparator as RC
    from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_utils, rcpsp_model as rm

RULE = 'random thief instances (2-12 cities, 1-15 items), tours, packings, files and mutation histories; robustness studies on 2-6 perturbed projects; random result stores; non-trivial = an instance with at least 4 cities and 2 items picked, a study with at least 2 test instances'
REQUIRED = {'tours': 700, 'picked': 1500, 'invalid': 400, 'parsed': 80, 'mut:on': 200, 'mut:off': 250, 'mut:best': 400, 'mut:2opt': 400, 'mut:improved': 80, 'mut:crossing': 20, 'mut:crossings-all': 10, 'mut:mixed': 300, 'climbs': 50,
            'partitions': 40, 'robust': 50, 'robust:instances': 150, 'models': 150, 'solved': 20, 'plots': 60, 'policies': 100, 'pairs': 80, 'steps': 200}
ASSUMPTIONS = ['distances are Euclidean whatever the edge type', 'profits and weights are positive integers, cities have integer coordinates', 'a vehicle never exceeds the capacity of its knapsack during an evaluation']


# ---------------------------------------------------------------- travelling thief
class Thief:
    def __init__(self, rng):
        self.n, self.m = rng.randint(2, 12), rng.randint(1, 15)
        span = rng.choice([4, 30, 500])
        self.xy = [(rng.randint(0, span), rng.randint(0, span)) for _ in range(self.n)]
        self.items = [(rng.randint(1, 60), rng.randint(1, 30), rng.randint(min(1, self.n - 1), self.n - 1)) for _ in range(self.m)]     # profit, weight, city
        self.cap = float(rng.choice([5, 20, 60, sum(w for _, w, _ in self.items)]))
        self.vmin, self.vmax = rng.choice([(0.1, 1.0), (0.5, 2.0), (1.0, 1.0)])
        self.rent = rng.choice([0.0, 0.31, 2.5, 10.0])

    def model(self):
        nodes = [{'index': i, 'x': x, 'y': y} for i, (x, y) in enumerate(self.xy)]
        items = [{'index': j, 'profit': p, 'weight': w, 'node_index': c} for j, (p, w, c) in enumerate(self.items)]
        return T.TTPModel('t', 'k', self.n, self.m, self.cap, self.vmin, self.vmax, self.rent, 'EUC_2D', nodes, items,
                          np.array([[i, x, y] for i, (x, y) in enumerate(self.xy)], dtype=int), np.array([[j, p, w, c] for j, (p, w, c) in enumerate(self.items)], dtype=int))

    def text(self, rng):
        sep, o = rng.choice(['\t', ' ', '  ']), []
        gap = rng.choice([' ', ' ', ''])
        for k, v in (('PROBLEM NAME', 'inst'), ('KNAPSACK DATA TYPE', 'uncorrelated'), ('DIMENSION', self.n), ('NUMBER OF ITEMS', self.m), ('CAPACITY OF KNAPSACK', int(self.cap)), ('MIN SPEED', self.vmin),
                     ('MAX SPEED', self.vmax), ('RENTING RATIO', self.rent), ('EDGE_WEIGHT_TYPE', 'CEIL_2D')):
            o.append(f'{k}:{gap}{sep if gap else rng.choice([sep, str()])}{v}')
        o.append('NODE_COORD_SECTION\t(INDEX, X, Y): ')
        o += [sep.join(map(str, (i + 1, x, y))) for i, (x, y) in enumerate(self.xy)]
        o.append('ITEMS SECTION\t(INDEX, PROFIT, WEIGHT, ASSIGNED NODE NUMBER): ')
        o += [sep.join(map(str, (j + 1, p, w, c + 1))) for j, (p, w, c) in enumerate(self.items)]
        return '\n'.join(o) + rng.choice(['\n', '\n\n', ''])

    def tour(self, rng):
        t = list(range(1, self.n))
        rng.shuffle(t)
        return [0] + t + [0]

    def packing(self, rng, fill=None):
        z, left = [-1] * self.m, self.cap
        for j in rng.sample(range(self.m), self.m):
            if self.items[j][1] <= left and rng.random() < (rng.random() if fill is None else fill):
                z[j], left = self.items[j][2], left - self.items[j][1]
        return z

    def worth(self, tour, z):
        """objective, profit, distance, time, weight, capacity left, weight after each city"""
        w = profit = 0
        dist = time = 0.0
        ws = []
        for a, b in zip(tour[:-1], tour[1:]):
            for j in range(self.m):
                if z[j] == a:
                    w, profit = w + self.items[j][1], profit + self.items[j][0]
            ws.append(w)
            d = math.dist(self.xy[a], self.xy[b])
            dist += d
            time += d / (self.vmax - w * (self.vmax - self.vmin) / self.cap)
        return profit - self.rent * time, profit, dist, time, w, self.cap - w, ws

    def valid(self, tour, z):
        tour, z = [int(c) for c in tour], [int(c) for c in z]
        return (tour[0] == tour[-1] and sorted(tour[:-1]) == list(range(self.n)) and all(c in (-1, self.items[j][2]) for j, c in enumerate(z))
                and sum(self.items[j][1] for j, c in enumerate(z) if c != -1) <= self.cap)


def near(a, b):
    return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


def same_worth(run, got, want, mech, detail):
    return run.check(len(got) >= 6 and all(near(float(a), float(b)) for a, b in zip(got[:6], want[:6])), mech, lambda: f'got {got} want {want}; {detail}')


def fields(s):
    return (s.objective, s.profit, s.distance, s.time_trip, s.weight_used, s.weight_end)


def arr(x):
    return np.array(x, dtype=int)


def thief(run, rng):
    p = Thief(rng)
    model = p.model()
    with quiet():
        for _ in range(6):
            tour, z = p.tour(rng), p.packing(rng)
            want = p.worth(tour, z)
            sol = T.TTPSolution(arr(tour), arr(z))
            run.hit('tours')
            run.hit('picked', sum(c != -1 for c in z))
            got = model.evaluate(sol)
            same_worth(run, fields(sol), want, 'evaluate', (vars(p), tour, z))
            run.check(set(got) == {'obj'} and near(got['obj'], want[0]), 'evaluate:answer', got)
            s2 = T.TTPSolution(arr(tour), arr(z))
            got = model.evaluate_details(s2)
            run.check(near(got, want[0]), 'evaluate-details', got)
            same_worth(run, fields(s2), want, 'evaluate-details', (vars(p), tour, z))
            run.eq([int(x) for x in s2.weight_array], want[6], 'weight-array')
            run.check(list(sol.tour) == tour and list(sol.packing) == z, 'evaluate:modified', (tour, z))
            c = s2.copy()
            run.check(fields(c) == fields(s2) and list(c.tour) == tour and list(c.packing) == z and list(c.weight_array) == list(s2.weight_array), 'copy', vars(c))
            c.tour[0] = 77
            c.packing[0] = 78
            run.check(list(s2.tour) == tour and list(s2.packing) == z, 'copy:shared', (tour, z))
            run.check(all(str(x) in str(s2) for x in (s2.profit, s2.objective, s2.distance)), 'print', str(s2))
            run.check(model.satisfy(sol), 'satisfy:valid-refused', (vars(p), tour, z))
            bad_t, bad_z = list(tour), list(z)
            k = rng.choice(['repeat', 'open', 'elsewhere', 'heavy', 'short'])
            if k == 'repeat' and p.n > 2:
                bad_t[1] = bad_t[2]
            elif k == 'open' and p.n > 2:
                bad_t[-1] = bad_t[1]
            elif k == 'elsewhere':
                j = rng.randrange(p.m)
                bad_z[j] = (p.items[j][2] + 1) % p.n
            elif k == 'short':
                bad_t = bad_t[:-2] + bad_t[-1:]
            elif k == 'heavy':
                bad_z = [c for _, _, c in p.items]
            ok = p.valid(bad_t, bad_z)
            run.hit('invalid', int(not ok))
            run.eq(bool(model.satisfy(T.TTPSolution(arr(bad_t), arr(bad_z)))), ok, f'satisfy:{k}', (vars(p), bad_t, bad_z))
        reg = model.get_attribute_register().dict_attribute_to_type
        run.check(list(reg['tour']['range']) == list(range(p.n)) and reg['tour']['n'] == p.n and model.get_solution_type() is T.TTPSolution, 'register', reg)
        o = model.get_objective_register()
        run.check(o.objective_sense == ModeOptim.MAXIMIZATION, 'objective-sense', o)
        if rng.random() < .2:
            ax = model.plot(sol)
            x, y = ax.lines[0].get_data()
            run.check([(int(a), int(b)) for a, b in zip(x, y)][:len(tour)] == [p.xy[c] for c in tour] and all((int(a), int(b)) == p.xy[tour[0]] for a, b in list(zip(x, y))[len(tour):]), 'plot', lambda: f'{x} {y} for {tour} at {p.xy}')
            run.hit('plots')
            plt.close('all')
    run.case((vars(p), tour, z), p.n >= 4 and sum(c != -1 for c in z) >= 2)


def parse(run, rng):
    p = Thief(rng)
    with tempfile.TemporaryDirectory() as d, quiet():
        f = os.path.join(d, 'x.ttp')
        open(f, 'w').write(p.text(rng))
        m = ttp_parser.parse(f)
    run.hit('parsed')
    run.eq((m.problemName, m.knapsackDataType, m.numberOfNodes, m.numberOfItems, m.capacityOfKnapsack, m.minSpeed, m.maxSpeed, m.rentingRatio, m.edgeWeightType),
           ('inst', 'uncorrelated', p.n, p.m, p.cap, p.vmin, p.vmax, p.rent, 'CEIL_2D'), 'parse:header')
    run.eq([(n['index'], n['x'], n['y']) for n in m.nodes], [(i, x, y) for i, (x, y) in enumerate(p.xy)], 'parse:nodes')
    run.eq([(i['index'], i['profit'], i['weight'], i['node_index']) for i in m.items], [(j, *i) for j, i in enumerate(p.items)], 'parse:items')
    run.eq(m.nodes_array.tolist(), [[i, x, y] for i, (x, y) in enumerate(p.xy)], 'parse:nodes-array')
    run.eq(m.items_array.tolist(), [[j, *i] for j, i in enumerate(p.items)], 'parse:items-array')
    run.eq((m.profits.tolist(), m.weights.tolist()), ([i[0] for i in p.items], [i[1] for i in p.items]), 'parse:vectors')
    run.check(all(m.av[j][c] == (c == p.items[j][2]) for j in range(p.m) for c in range(p.n)), 'parse:availability', m.av)
    with quiet():
        for a in list(m.nodes)[:2]:
            for b in list(m.nodes)[:3]:
                run.check(near(T.distance(a, b), math.dist((a['x'], a['y']), (b['x'], b['y']))), 'distance', (a, b))
        tour, z = p.tour(rng), p.packing(rng)
        s = T.TTPSolution(arr(tour), arr(z))
        m.evaluate(s)
        same_worth(run, fields(s), p.worth(tour, z), 'parse:evaluate', vars(p))
    run.case((vars(p), tour), p.n >= 4)


def mutate(run, rng):
    p = Thief(rng)
    model = p.model()
    with quiet():
        sol = T.TTPSolution(arr(p.tour(rng)), arr(p.packing(rng, rng.choice([0, 0, .3, .8, 1]))))
        model.evaluate(sol)
        improve = rng.random() < .5
        nb = rng.choice([1, 3, 1000])
        simple, best = M.MutationTTPKnapsack(model), M.MutationTTPKnapsackBest(model)
        opt = M.Mutation2Opt(model, rng.random() < .4, nb, improve)
        mix = M.MixingMutation(model, rng.randint(1, 3), rng.randint(1, 3), rng.random() < .4, nb, improve)
        for _ in range(10):
            kind = rng.choice(['simple', 'on', 'off', 'best', 'bestoff', '2opt', '2opt-obj', 'mix', 'mix'])
            before = (list(sol.tour), list(sol.packing), fields(sol))
            t0, z0, f0 = before
            new, move, obj = None, None, None
            if kind == 'simple':
                new, move = simple.mutate(sol) if rng.random() < .5 else simple.mutate_and_compute_obj(sol)[:2]
            elif kind == 'on':
                new = simple.switch_on(sol)
            elif kind == 'off':
                new = simple.switch_off(sol)
            elif kind == 'best':
                new = best.switch_on(sol)
            elif kind == 'bestoff':
                new = best.switch_off(sol)
            elif kind == '2opt':
                new, move = opt.mutate(sol)
            elif kind == '2opt-obj':
                new, move, obj = opt.mutate_and_compute_obj(sol)
            else:
                new, move, obj = mix.mutate_and_compute_obj(sol)
            now = (list(sol.tour), list(sol.packing), fields(sol))
            what = f'{kind} on {vars(p)}, {t0}, {z0}'
            if new is not sol:
                run.check(now == before, 'mutation:original-modified', lambda: f'{before} became {now}; {what}')
            t1, z1 = [int(c) for c in new.tour], [int(c) for c in new.packing]
            run.check(p.valid(t1, z1), 'mutation:invalid', lambda: f'{t1} {z1} from {what}')
            if move is not None:
                run.check(move.apply_local_move(sol) is new and move.backtrack_local_move(new) is sol, 'mutation:move', lambda: what)
            diff = [j for j in range(p.m) if z1[j] != z0[j]]
            fits = [j for j in range(p.m) if z0[j] == -1 and f0[4] + p.items[j][1] <= p.cap]
            used = [j for j in range(p.m) if z0[j] != -1]
            value = p.worth(t1, z1)[0]
            if obj is not None:
                run.check(set(obj) == {'obj'} and near(obj['obj'], value), 'mutation:objective', lambda: f'announced {obj}, is {value}; {what}')
            if kind in ('simple', 'on', 'off'):
                run.check(t1 == t0 and len(diff) == (1 if fits or used else 0), 'mutation:one-item', lambda: f'{z1} from {what}')
                if kind == 'on' and fits:
                    run.check(diff[0] in fits, 'mutation:switch-on', lambda: f'{z1} from {what}')
                    run.hit('mut:on')
                if kind == 'off' and used:
                    run.check(diff[0] in used, 'mutation:switch-off', lambda: f'{z1} from {what}')
                    run.hit('mut:off')
            elif kind == 'best':
                run.hit('mut:best')
                run.check(t1 == t0 and (not diff or len(diff) == 1 and diff[0] in fits), 'mutation:best-on', lambda: f'{z1} from {what}')
                run.check(value >= f0[0] - 1e-6, 'mutation:best-worse', lambda: f'{value} < {f0[0]}; {what}')
            elif kind == 'bestoff':
                run.hit('mut:best')
                off = [j for j in diff if j in used]
                run.check(t1 == t0 and len(off) <= 1 and len(diff) <= 2, 'mutation:best-off', lambda: f'{z1} from {what}')
                if used and not diff:
                    run.check(True, '')     # switched off then on again
            elif kind in ('2opt', '2opt-obj'):
                run.hit('mut:2opt')
                d = [i for i in range(len(t0)) if t0[i] != t1[i]]
                run.check(z1 == z0 and t1[0] == t0[0] and t1[-1] == t0[-1], 'mutation:2opt-ends', lambda: f'{t1} {z1} from {what}')
                if d:
                    i, j = d[0], d[-1]
                    run.check(t1 == t0[:i] + t0[i:j + 1][::-1] + t0[j + 1:], 'mutation:2opt-reversal', lambda: f'{t1} from {what}')
                if improve:
                    run.check(value >= f0[0] - 1e-6, 'mutation:2opt-worse', lambda: f'{value} < {f0[0]}; {what}')
                run.hit('mut:improved', int(value > f0[0] + 1e-6))
            else:
                run.hit('mut:mixed')
                run.check((z1 == z0) or (t1 == t0), 'mutation:mixed', lambda: f'{t1} {z1} from {what}')
            run.hit('steps')
            model.evaluate(new)
            sol = new
        if p.n >= 4:
            xs = M.find_intersection(sol, model, test_all=True)
            t = [int(c) for c in sol.tour]

            def ccw(a, b, c):
                return (c[1] - a[1]) * (b[0] - a[0]) > (b[1] - a[1]) * (c[0] - a[0])
            for i, j in xs:
                a, b, c, d = (p.xy[t[k]] for k in (i - 1, i, j, j + 1))
                run.check(1 <= i - 1 and i < j <= p.n - 1 and ccw(a, c, d) != ccw(b, c, d) and ccw(a, b, c) != ccw(a, b, d), 'crossing', (t, i, j))
                run.hit('mut:crossing')
            pt = [p.xy[c] for c in t]
            cross = lambda a, b, c, d: ccw(a, c, d) != ccw(b, c, d) and ccw(a, b, c) != ccw(a, b, d)
            want = {(i + 1, j) for i in range(1, p.n) for j in range(i + 2, p.n) if cross(pt[i], pt[i + 1], pt[j], pt[j + 1])}
            run.check(len(xs) > 5 or want <= {(int(i), int(j)) for i, j in xs}, 'crossing-missed', lambda: f'{want} {xs} {t}')     # the search stops after some crossings
            run.hit('mut:crossings-all', int(0 < len(want) and len(xs) <= 5))
    run.case((vars(p), kind, list(sol.tour)), p.n >= 4 and p.m >= 2)


def climb(run, rng):
    p = Thief(rng)
    model = p.model()
    with quiet():
        sol = T.TTPSolution(arr(p.tour(rng)), arr(p.packing(rng, rng.choice([0, .3, 1]))))
        model.evaluate(sol)
        t0, z0 = list(sol.tour), list(sol.packing)
        mut = rng.choice([lambda: M.MutationTTPKnapsack(model), lambda: M.MutationTTPKnapsackBest(model), lambda: M.Mutation2Opt(model, False, 20, False), lambda: M.MixingMutation(model, 2, 2, False, 20, False)])()
        kw = {'evaluator': model, 'mutator': mut, 'mode_mutation': rng.choice(list(ls.ModeMutation)), 'params_objective_function': get_default_objective_setup(model), 'store_solution': rng.random() < .5}
        if rng.random() < .5:
            s = hc.HillClimber(restart_handler=ls.RestartHandler(), **kw)
        else:
            rh = ls.RestartHandler()
            s = sa.SimulatedAnnealing(restart_handler=rh, temperature_handler=sa.TemperatureSchedulingFactor(rng.choice([1, 100]), rh, .9), **kw)
        res = s.solve(sol, rng.choice([5, 40]))
    what = f'{type(s).__name__} with {type(mut).__name__} on {vars(p)}, {t0}, {z0}'
    run.hit('climbs')
    for x, f in res.list_solution_fits:
        t, z = [int(c) for c in x.tour], [int(c) for c in x.packing]
        run.check(p.valid(t, z), 'climb:invalid', lambda: f'{t} {z} from {what}')
        run.check(near(f, p.worth(t, z)[0]), 'climb:announced', lambda: f'{f} is {p.worth(t, z)[0]}: {t} {z} from {what}')
    b, f = res.get_best_solution_fit()
    start = p.worth(t0, z0)[0]
    run.check(f >= start - 1e-6, 'climb:worse-than-start', lambda: f'{f} < {start}: {what}')
    x = res.best_solution
    run.check(near(p.worth([int(c) for c in x.tour], [int(c) for c in x.packing])[0], f), 'climb:best', what)
    run.check(list(sol.tour) == t0 and list(sol.packing) == z0, 'climb:start-modified', what)
    run.case(what, p.n >= 4)


# ---------------------------------------------------------------- robustness tool
def project(rng):
    while True:
        p = G.gen(rng)
        try:
            return p, G.build(p)
        except Exception:       # noqa: BLE001
            continue


class Answer:
    """what a solver function gives back; module-level: sent through a pool of processes"""

    def __init__(self, sol):
        self.best_solution = sol


def solve_dummy(model):
    s = model.get_dummy_solution()
    s.problem = None
    return Answer(s)


def recorded(model):
    """a permutation and modes that depend on the content of the model only, so that the check can compute them again"""
    if isinstance(model, rm.Aggreg_RCPSPModel):
        key = (model.method_aggregating.base_method_aggregating.name, [sum(m['duration'] for d in q.mode_details.values() for m in d.values()) for q in model.list_problem])
    else:
        key = sorted((j, k, m['duration']) for j, d in model.mode_details.items() for k, m in d.items())
    r = random.Random(repr(key))
    jobs = sorted(model.mode_details)
    perm = list(range(len(jobs) - 2))
    r.shuffle(perm)
    return perm, [r.choice(sorted(model.mode_details[j])) for j in jobs[1:-1]]


def solve_recorded(model):
    perm, modes = recorded(model)
    return Answer(rm.RCPSPSolution(problem=model, rcpsp_permutation=perm, rcpsp_modes=modes))


def study(rng, n_inst):
    p = G.gen(rng, calendar=False, tight=False, nonren=False, overload=False)
    ps = []
    for _ in range(n_inst):
        q = copy.deepcopy(p)
        for j in range(2, p.n + 2):
            for m in q.modes[j].values():
                m['duration'] = max(0, m['duration'] + rng.randint(-2, 2))
        q.horizon = sum(max(m['duration'] for m in q.modes[j].values()) for j in q.modes) + 1
        if rng.random() < .2:
            q.horizon = max(1, q.horizon // 3)      # some instances are too short for some permutations
        q.mult = 1
        ps.append(q)
    return p, ps


class Recorder:
    def __init__(self):
        self.calls = []

    def distplot(self, data, *a, **k):
        self.calls.append((list(data), k.get('label')))


NAMES = ['mean', 'max', 'min', 'median']
FN = {'mean': lambda v: sum(v) / len(v), 'max': max, 'min': min, 'median': lambda v: (sorted(v)[(len(v) - 1) // 2] + sorted(v)[len(v) // 2]) / 2}


def robust(run, rng):
    n = rng.randint(2, 6)
    p, ps = study(rng, n)
    models, base = [G.build(q) for q in ps], G.build(p)
    data = {id(m): q for m, q in zip(models, ps)}
    given = list(models)
    prop = rng.choice([0.5, 0.8, 0.34, 0.99])
    with quiet():
        if rng.random() < .7 and int(prop * n) >= 1:
            tool = R.RobustnessTool(base, given, proportion_train=prop)
            run.hit('partitions')
            run.check(sorted(map(id, tool.train_instance + tool.test_instance)) == sorted(data), 'partition', lambda: f'{len(tool.train_instance)} + {len(tool.test_instance)} of {n}')
            run.eq((len(tool.train_instance), len(tool.test_instance)), (int(prop * n), n - int(prop * n)), 'partition:sizes')
        else:
            k = rng.randint(1, n - 1)
            tool = R.RobustnessTool(base, given, train_instance=given[:k], test_instance=given[k:])
            run.check([id(x) for x in tool.train_instance] == [id(x) for x in models[:k]] and [id(x) for x in tool.test_instance] == [id(x) for x in models[k:]], 'partition:given', k)
    train, test = [data[id(m)] for m in tool.train_instance], [data[id(m)] for m in tool.test_instance]
    prio, post = rng.random() < .7, rng.random() < .7
    with quiet():
        ms = tool.get_models(prio, post)
    tags = [f'post_{x}' for x in NAMES] * post + [f'prio_{x}' for x in NAMES] * prio + ['original']
    if not run.check(tool.tags == tags and len(ms) == len(tags) and list(tool.models) == list(ms) and ms[-1] is base, 'models:tags', lambda: f'{tool.tags} for {prio} {post}'):
        return
    perm, modes = G.rand_perm(rng, p), G.rand_modes(rng, p)
    for m, t in zip(ms, tags):
        run.hit('models')
        kind, name = t.split('_') if '_' in t else (t, None)
        if kind == 'post':
            vals = [G.sgs(q, perm, modes) for q in train]
            if all(f for f, _ in vals):
                with quiet():
                    got = m.evaluate(rm.RCPSPSolution(problem=base, rcpsp_permutation=list(perm), rcpsp_modes=list(modes)))
                run.check(abs(got['makespan'] - FN[name]([s[q.sink][1] for (_, s), q in zip(vals, train)])) < 1e-9, 'models:' + kind, lambda: f'{t} {got} {vals}')
        elif kind == 'prio':
            run.check(all(m.mode_details[j][k]['duration'] == int(FN[name]([q.modes[j][k]['duration'] for q in train])) for j in p.modes for k in p.modes[j]), 'models:' + kind, lambda: f'{t} {m.mode_details} {train}')
    run.check(all(m.mode_details == q.modes for m, q in zip(models, ps)) and base.mode_details == p.modes, 'models:instances-modified', '')
    if rng.random() < .5 and test:
        with quiet():
            res = tool.solve_and_retrieve(solve_recorded, prio, post)
            ms = tool.models
        run.hit('robust')
        if run.eq(tuple(res.shape), (len(tags), len(test), 3), 'results:shape'):
            for i, m in enumerate(ms):
                perm, modes = recorded(m)
                for j, q in enumerate(test):
                    run.hit('robust:instances')
                    f, s = G.sgs(q, perm, modes)
                    run.check(res[i, j, 0] == int(f), 'results:feasible', lambda: f'{tags[i]} {res[i, j]} {q} {perm} {modes}')
                    if f:
                        run.check(res[i, j, 1] == s[q.sink][1], 'results:makespan', lambda: f'{tags[i]} {res[i, j]} want {s[q.sink][1]}: {q} {perm} {modes}')
                        if s[q.sink][1]:
                            with quiet():
                                inst = tool.test_instance[j]
                                want = inst.evaluate(rm.RCPSPSolution(problem=inst, rcpsp_permutation=list(perm), rcpsp_modes=list(modes)))['mean_resource_reserve']
                            run.check(abs(res[i, j, 2] - want) < 1e-9, 'results:reserve', lambda: f'{res[i, j]} {want}')
            rec, sns = Recorder(), R.sns
            R.sns = rec
            try:
                with tempfile.TemporaryDirectory() as d, quiet():
                    tool.plot(res, image_tag=os.path.join(d, 'a'))
                    run.check(len(os.listdir(d)) == 1, 'plot:file', '')
            finally:
                R.sns = sns
                plt.close('all')
            run.hit('plots')
            run.check([c[1] for c in rec.calls] == tags and all(c[0] == list(res[i, :, 1]) for i, c in enumerate(rec.calls)), 'plot:distributions', rec.calls)
        run.check(all(m.mode_details == q.modes for m, q in zip(models, ps)), 'results:instances-modified', '')
    run.case((repr(p), n, prop, tags), len(test) >= 2)


def search(run, rng):
    """the local search given with the tool: never worse than where it starts, announced values are those of the solutions"""
    p, ps = study(rng, rng.randint(1, 3))
    models = [G.build(q) for q in ps]
    post = rng.random() < .6
    robust_ = rng.random() < .5
    meth = rng.choice(['MEAN', 'MAX', 'MIN'])
    model = rm.Aggreg_RCPSPModel(models, R.MethodAggregating(R.BaseMethodAggregating[meth])) if robust_ else models[0]
    used = ps if robust_ else ps[:1]
    with quiet():
        dummy = model.get_dummy_solution()
        start = dummy.rcpsp_permutation
        res = R.solve_model(model, postpro=post, nb_iteration=rng.choice([1, 20, 80]))

    def value(perm, modes):
        v = [G.sgs(q, perm, modes) for q in used]
        return -FN[meth.lower()]([s[q.sink][1] for (_, s), q in zip(v, used)]) if all(f for f, _ in v) else None
    run.hit('solved')
    v0 = value(list(start), [1] * p.n)
    best = res.get_best_solution_fit()
    for s, f in res.list_solution_fits:
        v = value([int(x) for x in s.rcpsp_permutation], list(s.rcpsp_modes))
        run.check(sorted(int(x) for x in s.rcpsp_permutation) == list(range(p.n)), 'search:permutation', s.rcpsp_permutation)
        if v is not None:
            ff = f if post else f.vector_fitness[0]
            run.check(abs(ff - v) < 1e-9, 'search:announced', lambda: f'{ff} is {v}: {s.rcpsp_permutation} {used}')
    if v0 is not None:
        b = best[1] if post else best[1].vector_fitness[0]
        run.check(b >= v0 - 1e-9, 'search:worse-than-start', lambda: f'{b} < {v0}')
        s = res.best_solution
        v = value([int(x) for x in s.rcpsp_permutation], list(s.rcpsp_modes))
        run.check(v is not None and v >= v0 - 1e-9, 'search:best-worse-than-start', lambda: f'{v} < {v0}')
    run.case((repr(p), post, meth, robust_), p.n >= 3)


# ---------------------------------------------------------------- comparisons of results
class Sol:
    def __init__(self, i):
        self.i = i


def compare(run, rng):
    names = ['a', 'b', 'c'][:rng.choice([2, 3])]
    mode = rng.choice(list(ModeOptim))
    stores, data = [], []
    for k in range(rng.randint(1, 4)):
        vs = [tuple(rng.randint(0, 9) for _ in names) for _ in range(rng.randint(1, 5))]
        data.append(vs)
        stores.append(ResultStorage(list_solution_fits=[(Sol(i), TupleFitness(np.array(v), len(names))) for i, v in enumerate(vs)], mode_optim=mode))
    labels = [f'm{i}' for i in range(len(stores))]
    pts = lambda sc: [tuple(map(float, x)) for x in sc.get_offsets()]       # noqa: E731
    try:
        with quiet():
            cmp_ = RC.ResultComparator(stores, labels, names, [1] * len(names))
            objs = rng.choice([None, rng.sample(names, 2)])
            ix = [0, 1] if objs is None else [names.index(o) for o in objs]
            ax = cmp_.plot_all_2d_paretos_single_plot(objs)
            run.check([pts(c) for c in ax.collections] == [[(float(v[ix[0]]), float(v[ix[1]])) for v in vs] for vs in data], 'plot:fronts', lambda: f'{objs} {data}')
            run.check((ax.get_xlabel(), ax.get_ylabel()) == (names[ix[0]], names[ix[1]]), 'plot:axes', '')
            fig = cmp_.plot_all_2d_paretos_subplots(objs)
            got = [a for a in fig.axes if a.collections]
            run.check([pts(a.collections[0]) for a in got] == [[(float(v[ix[0]]), float(v[ix[1]])) for v in vs] for vs in data] and [a.get_title() for a in got] == labels, 'plot:subplots', lambda: f'{objs} {data}')
            o = rng.choice(names)
            k = names.index(o)
            plt.figure()
            cmp_.plot_all_best_by_objective(o)
            bars = [b.get_height() for b in plt.gca().patches]
            run.check(bars == [(max if mode == ModeOptim.MAXIMIZATION else min)(v[k] for v in vs) for vs in data], 'plot:best', lambda: f'{bars} {data} {mode}')
            sign = 1 if mode == ModeOptim.MAXIMIZATION else -1
            allv = [v for vs in data for v in vs]
            dom = lambda x, y: all(sign * a >= sign * b for a, b in zip(x, y)) and x != y       # noqa: E731
            cmp_.plot_super_pareto()
            got = pts(plt.gca().collections[-1])
            run.check(set(got) == {tuple(map(float, v[:2])) for v in allv if not any(dom(w, v) for w in allv)}, 'plot:merged-front', lambda: f'{got} {data} {mode}')
            cmp_.reevaluated_results = {i: {n: [rng.random() for _ in range(3)] for n in names} for i in range(len(stores))}
            rec, sns = Recorder(), RC.sns
            RC.sns = rec
            try:
                cmp_.plot_distribution_for_objective(o)
            finally:
                RC.sns = sns
            run.check(rec.calls == [(cmp_.reevaluated_results[i][o], labels[i]) for i in range(len(stores))], 'plot:re-evaluated', rec.calls)
    finally:
        plt.close('all')
    run.hit('plots')
    run.case((mode.name, names, data), len(allv) > 2)


# ---------------------------------------------------------------- look-up policies, similarity of schedules
def lookup(run, rng):
    d = {rng.choice([i, f's{i}', (i, i + 1)]): rng.choice([None, 0, 'a', (1, 2), i]) for i in range(rng.randint(0, 8))}
    with quiet():
        pol = LookUpPolicy(dict(d))
        pol.reset()
        for o in list(d) + [99, 's99']:
            run.hit('policies')
            run.check(pol.is_policy_defined_for(o) == (o in d), 'policy:defined', lambda: f'{o} {d}')
            run.eq(pol.sample_action(o), d.get(o), 'policy:action', d)
            run.eq(pol.get_next_action(o), d.get(o), 'policy:action', d)
            dist = pol.get_next_action_distribution(o)
            run.check(dist.get_values() == [(d.get(o), 1.0)], 'policy:distribution', lambda: f'{dist.get_values()}')
    p, model = project(rng)
    sols = []
    for _ in range(2):
        perm, modes = G.rand_perm(rng, p), G.rand_modes(rng, p)
        f, s = G.sgs(p, perm, modes)
        run.require(f)
        with quiet():
            sol = rm.RCPSPSolution(problem=model, rcpsp_permutation=perm, rcpsp_modes=modes)
        sols.append((sol, s))
    (a, sa), (b, sb) = sols
    with quiet():
        diff = rcpsp_utils.all_diff_start_time((a, b))
        run.eq({k: int(v) for k, v in diff.items()}, {j: sa[j][0] - sb[j][0] for j in p.modes}, 'start-differences')
        if p.n >= 2:
            pa, pb = (s.generate_permutation_from_schedule() for s in (a, b))
            conc = 0
            for i in range(p.n):
                for j in range(i):
                    conc += 1 if (pa[i] - pa[j]) * (pb[i] - pb[j]) > 0 else -1
            got = rcpsp_utils.kendall_tau_similarity((a, b))
            run.check(abs(got - conc / (p.n * (p.n - 1) / 2)) < 1e-9, 'similarity', lambda: f'{got} {pa} {pb}')
        run.hit('pairs')
        res = rng.sample(list(model.resources_list), rng.randint(1, len(model.resources_list)))
        times, cons = rcpsp_utils.compute_nice_resource_consumption(model, a, list_resources=res)
        end = sa[p.sink][1]
        for i, r in enumerate(res):
            if r in p.nonren or p.calendar or not end:
                continue
            use = lambda u: sum(p.modes[j][G.mode_of(p, a.rcpsp_modes, j)][r] for j, (s, e) in sa.items() if s <= u < e)     # noqa: E731
            for t, c in set(zip([int(x) for x in times[i]], [int(x) for x in cons[i]])):
                run.check(c in (use(t), use(t - 1)), 'steps:value', lambda: f'{r} at {t}: {c}, uses {use(t - 1)} then {use(t)}; {p} {sa}')
                run.hit('steps')
    run.case((d, repr(p)), len(d) >= 2)


GROUPS = [('thief', thief, 160, 4000), ('parse', parse, 110, 2000), ('mutate', mutate, 480, 8000), ('climb', climb, 60, 1200), ('robust', robust, 140, 2500), ('search', search, 40, 500), ('compare', compare, 70, 1200), ('lookup', lookup, 130, 3000)]

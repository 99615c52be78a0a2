B = 'skdecide/builders/'
DO = B + 'discrete_optimization/'
GT = DO + 'generic_tools/'

bug('C20-later-predecessor', 'C20', [(DO + 'rcpsp/rcpsp_model.py', """                    minimum_starting_time[s] = max(minimum_starting_time[s], activity_end_times[act_id])  # 20

        # print('activity_end_times: ', activity_end_times)
        self.rcpsp_schedule = {}
        for act_id in activity_end_times:
            self.rcpsp_schedule[act_id] = {}
            self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']
            self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
        for act_id in completed_tasks:
""", """                    minimum_starting_time[s] = activity_end_times[act_id]  # 20

        # print('activity_end_times: ', activity_end_times)
        self.rcpsp_schedule = {}
        for act_id in activity_end_times:
            self.rcpsp_schedule[act_id] = {}
            self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']
            self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
        for act_id in completed_tasks:
""")], '''
from itertools import permutations
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, RCPSPSolution
from skdecide.builders.scheduling.task import Task
D = {1: 0, 2: 2, 3: 7, 4: 1, 5: 2, 6: 0}
S = {1: [2, 3, 4], 2: [5], 3: [5], 4: [5], 5: [6], 6: []}
m = RCPSPModel(resources={'R': 4}, non_renewable_resources=[], mode_details={i: {1: {'R': 1 if D[i] else 0, 'duration': D[i]}} for i in D},
               successors=S, horizon=40, horizon_multiplier=1)
done = Task(1)
done.start = done.end = 0
for p in permutations(range(4)):
    s = RCPSPSolution(m, rcpsp_permutation=list(p), rcpsp_modes=[1] * 4)
    s.generate_schedule_from_permutation_serial_sgs_2(current_t=3, completed_tasks={1: done}, scheduled_tasks_start_times={})
    for i in (2, 3, 4, 5):
        for j in S[i]:
            assert s.rcpsp_schedule[j]['start_time'] >= s.rcpsp_schedule[i]['end_time'], (p, i, j, s.rcpsp_schedule)
''', 'decoding from a partial execution, with a predecessor that comes later in the list but ends earlier than another one', 'a task starts before one of its predecessors has finished')

bug('C21-stale-best-tie', 'C21', [(GT + 'result_storage/result_storage.py', """        sol = max([i
                   for i in range(len(self.list_solution_fits))
                   if self.list_solution_fits[i][1] == best])
""", """        sol = max([i
                   for i in range(len(self.list_solution_fits))
                   if self.list_solution_fits[i][1] >= best])
""")], '''
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim
for mode, best in ((ModeOptim.MAXIMIZATION, 9), (ModeOptim.MINIMIZATION, 2)):
    for fits in ([5, 9, 2], [2, 9, 5], [9, 2, 2, 9, 5]):
        r = ResultStorage([(i, f) for i, f in enumerate(fits)], mode_optim=mode)
        i, f = r.get_last_best_solution()
        assert f == best and i == max(k for k, g in enumerate(fits) if g == best), (mode, fits, i, f)
''', 'a storage that minimises, and a worse solution added after the best', 'the last best solution of a minimising storage is not a best one')

bug('C21-two-opt-undo', 'C21', [(GT + 'mutations/permutation_mutations.py', """    def backtrack_local_move(self, solution: Solution) -> Solution:
        current = getattr(solution, self.attribute)
        for i, j in self.index_2opt[::-1]:
""", """    def backtrack_local_move(self, solution: Solution) -> Solution:
        current = getattr(solution, self.attribute)
        for i, j in self.index_2opt:
""")], '''
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import TwoOptMove
class S:
    pass
for moves in ([(0, 2)], [(1, 4), (1, 4)], [(0, 3), (2, 5)], [(0, 1), (0, 5), (2, 3)]):
    s = S()
    s.p = list(range(6))
    m = TwoOptMove('p', moves)
    m.apply_local_move(s)
    m.backtrack_local_move(s)
    assert s.p == list(range(6)), (moves, s.p)
''', 'a move made of several overlapping reversals', 'undoing the move does not restore the permutation')

bug('C22-best-of-last', 'C22', [(GT + 'ea/ga.py', """        best_vector = hof[0]
""", """        best_vector = tools.selBest(population, 1)[0]
""")] , '''
import random
from skdecide.builders.discrete_optimization.generic_tools.ea.ga import Ga, DeapMutation, DeapSelection
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ObjectiveHandling
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackModel, Item
items = [Item(i, v, w) for i, (v, w) in enumerate([(5, 3), (9, 4), (1, 2), (7, 6), (4, 1), (8, 7)])]
m = KnapsackModel(items, 12)
seen = []
old = m.evaluate_from_encoding
def spy(vector, name):
    r = old(vector, name)
    seen.append(r['value'] - 10 * r['weight_violation'])
    return r
m.evaluate_from_encoding = spy
for seed in range(15):
    random.seed(seed)
    del seen[:]
    r = Ga(m, encoding='list_taken', objective_handling=ObjectiveHandling.AGGREGATE, objectives=['value', 'weight_violation'], objective_weights=[1, -10],
           selection=DeapSelection.SEL_RANDOM, mut_rate=0.6, pop_size=6, max_evals=120, deap_verbose=False).solve()
    s = r.list_solution_fits[0][0]
    d = m.evaluate(s.copy())
    got = d['value'] - 10 * d['weight_violation']
    assert got == max(seen[:]), (seed, got, max(seen))
''', 'a selection that does not keep the best individual, which is then lost before the last generation', 'the genetic algorithm does not return the best vector it evaluated')

bug('C24-2opt-end', 'C24', [(DO + 'tsp/mutation/mutation_tsp.py', """        if jt == self.length_permutation-1:
            j_after = variable.end_index
        else:
            j_after = perm[jt+1]
        return i_before, i, j, j_after

    def mutate_and_compute_obj""", """        if jt == self.length_permutation-1:
            j_after = variable.start_index
        else:
            j_after = perm[jt+1]
        return i_before, i, j, j_after

    def mutate_and_compute_obj""")], '''
import random
from skdecide.builders.discrete_optimization.tsp.tsp_model import TSPModel2D, Point2D, SolutionTSP
from skdecide.builders.discrete_optimization.tsp.mutation.mutation_tsp import Mutation2Opt
random.seed(0)
pts = [Point2D(x, y) for x, y in ((0, 0), (5, 1), (2, 7), (9, 3), (4, 4), (8, 8))]
for start, end in ((0, 0), (0, 5)):
    m = TSPModel2D(pts, 6, start, end, use_numba=False)
    for _ in range(40):
        p = list(m.ind_in_permutation)
        random.shuffle(p)
        s = SolutionTSP(m, start, end, permutation=p)
        n, move, fit = Mutation2Opt(m, test_all=True).mutate_and_compute_obj(s)
        true = m.evaluate(SolutionTSP(m, start, end, permutation=list(n.permutation)))['length']
        assert abs(fit['length'] - true) < 1e-6, (start, end, fit, true)
''', 'a path whose end differs from its start, and a reversal that reaches the last visited point', 'the announced length of the neighbour is wrong and better moves are missed')

bug('C25-exact-fill', 'C25', [(DO + 'knapsack/solvers/dyn_prog_knapsack.py', """                if weight>capacity:
                    self.table[nb_item, capacity] = self.table[nb_item-1, capacity]
                    continue
                self.table""", """                if weight>=capacity:
                    self.table[nb_item, capacity] = self.table[nb_item-1, capacity]
                    continue
                self.table""")], '''
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackModel, Item
from skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack import KnapsackDynProg
from itertools import product
for cap, ws in ((10, [(9, 4), (8, 6), (5, 5)]), (11, [(9, 4), (8, 6), (5, 5), (1, 1)])):
    m = KnapsackModel([Item(i, v, w) for i, (v, w) in enumerate(ws)], cap)
    best = max(sum(v for (v, w), t in zip(ws, ts) if t) for ts in product((0, 1), repeat=len(ws)) if sum(w for (v, w), t in zip(ws, ts) if t) <= cap)
    s = KnapsackDynProg(m)
    s.init_model()
    for k in (True, False):
        r = s.solve(greedy_start=False, start_by_most_promising=k)
        assert m.evaluate(r.best_solution)['value'] == best, (cap, ws, m.evaluate(r.best_solution), best)
''', 'an optimal selection that fills exactly some capacity the dynamic program looks at', 'dynamic programming returns a selection that is not optimal')

bug('C26-shared-copy', 'C26', [(DO + 'coloring/coloring_model.py', """        return ColoringSolution(problem=self.problem,
                                colors=list(self.colors),
""", """        return ColoringSolution(problem=self.problem,
                                colors=self.colors,
""")], '''
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem, ColoringSolution
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
p = ColoringProblem(Graph([(i, {}) for i in range(3)], [(0, 1, {}), (1, 2, {})], True))
s = ColoringSolution(p, [0, 1, 0])
c = s.copy()
c.colors[0] = 1
assert s.colors == [0, 1, 0] and p.satisfy(s) and not p.satisfy(c), (s.colors, c.colors)
''', 'editing a copy in place', 'the solution that was copied changes with its copy')

bug('C28-depot-demand', 'C28', [(DO + 'vrp/vrp_model.py', """        lengths += [method(end_index, solution[-1])]
        if end_index != start_index:
            capacity += list_customers[end_index].demand
""", """        lengths += [method(end_index, solution[-1])]
        capacity += list_customers[end_index].demand
""")], '''
from skdecide.builders.discrete_optimization.vrp.vrp_model import VrpProblem2D, VrpSolution, Customer2D
for depot in (0, 3):
    cs = [Customer2D(i, d, x, y) for i, (d, x, y) in enumerate([(depot, 0, 0), (4, 3, 1), (5, 2, 2), (0, 9, 9)])]
    p = VrpProblem2D(2, [12, 12], 4, cs, [0, 0], [0, 3])
    s = VrpSolution(p, [0, 0], [0, 3], [[1], [2]])
    d = p.evaluate(s)
    assert list(s.capacities) == [depot + 4, depot + 5], (s.capacities, depot)
''', 'a depot with a demand, at both ends of a non-empty route', 'the demand of the depot counts twice')

bug('C33-forgotten-duration', 'C33', [(B + 'scheduling/task_duration.py', """        if mode not in self.sampled_durations[task]:
            self.sampled_durations[task][mode] = {}
        if progress_from not in""", """        if progress_from not in self.sampled_durations[task].get(mode, {}):
            self.sampled_durations[task][mode] = {}
        if progress_from not in""")], '''
import random
from skdecide.builders.scheduling.task_duration import SimulatedTaskDuration
class D(SimulatedTaskDuration):
    def __init__(self):
        self.sampled_durations = {}
        self.n = 0
    def _sample_task_duration(self, task, mode=1, progress_from=0.):
        self.n += 1
        return 100 * task + 10 * mode + self.n
d = D()
a = d.sample_task_duration(1, 1, 0.)
b = d.sample_task_duration(1, 2, 0.)
c = d.sample_task_duration(1, 1, .5)
assert [d.get_latest_sampled_duration(1, 1, 0.), d.get_latest_sampled_duration(1, 2, 0.), d.get_latest_sampled_duration(1, 1, .5)] == [a, b, c]
assert d.n == 3, d.n
''', 'one task and mode sampled from two different progresses, the first asked again', 'a duration already drawn is forgotten and drawn again')

bug('C38-mode-swap', 'C38', [(GT + 'robustness/robustness_tool.py', """        self.model_aggreg_min = Aggreg_RCPSPModel(list_problem=self.train_instance,
""", """        self.model_aggreg_min = Aggreg_RCPSPModel(list_problem=self.all_instances,
""")], '''
import random
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel
from skdecide.builders.discrete_optimization.generic_tools.robustness.robustness_tool import RobustnessTool
def model(d):
    D = {1: 0, 2: d, 3: d + 1, 4: 0}
    return RCPSPModel(resources={'R': 1}, non_renewable_resources=[], mode_details={i: {1: {'R': 1 if D[i] else 0, 'duration': D[i]}} for i in D},
                      successors={1: [2, 3], 2: [4], 3: [4], 4: []}, horizon=60, horizon_multiplier=1)
ms = [model(d) for d in range(1, 11)]
for seed in range(5):
    random.seed(seed)
    t = RobustnessTool(ms[0], list(ms))
    assert len(t.train_instance) == 8 and len(t.test_instance) == 2
    s = t.model_aggreg_min.get_dummy_solution()
    for a, f in ((t.model_aggreg_min, min), (t.model_aggreg_max, max)):
        v = a.evaluate(s)['makespan']
        w = f(2 * m.mode_details[2][1]['duration'] + 1 for m in t.train_instance)
        assert abs(v) == w, (seed, f, v, w)
''', 'a split into training and test instances whose test part holds the smallest instance', 'one of the aggregated models learns from the test instances')

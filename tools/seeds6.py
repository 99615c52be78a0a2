"""Planted bugs: scheduling, policies, learning, front ends, C++ core."""
B = 'skdecide/builders/'
DO = B + 'discrete_optimization/'
H = 'skdecide/hub/solver/'

MRC = '''
import io, contextlib
from skdecide.hub.domain.rcpsp.rcpsp_sk import MRCPSP
from skdecide.builders.scheduling.scheduling_domains import SchedulingAction, SchedulingActionEnum
def domain(D, succ, cap=None):
    """D: {task: (duration, need)}"""
    md = {i: {1: {'R': n, 'duration': d}} for i, (d, n) in D.items()}
    d = MRCPSP(resource_names=['R'], task_ids=sorted(D), tasks_mode=md, successors=succ, max_horizon=60,
               resource_availability={'R': cap or 1}, resource_renewable={'R': True})
    return d
'''
bug('C31-freedom-edge', 'C31', [(H + 'sgs_policies/sgs_policies.py', "                                     <= scheduled_time + delta_time_freedom]", "                                     < scheduled_time + delta_time_freedom]")], MRC + '''
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyMethodParams, PolicyRCPSP, BasePolicyMethod
with contextlib.redirect_stdout(io.StringIO()):
    # 2 is long and holds the resource; 3 comes first in the list but does not fit next to 2, 4 was planned 3 later and fits
    d = domain({1: (0, 0), 2: (5, 1), 3: (3, 2), 4: (1, 1), 5: (0, 0)}, {1: [2, 3, 4], 2: [5], 3: [5], 4: [5], 5: []}, cap=2)
    d.set_inplace_environment(False)
    sch = {1: (0, 0), 2: (0, 5), 3: (5, 8), 4: (8, 9), 5: (9, 9)}
    starts = {}
    for delta in (2, 3, 4):
        p = PolicyRCPSP(d, PolicyMethodParams(BasePolicyMethod.SGS_TIME_FREEDOM, delta_index_freedom=0, delta_time_freedom=delta), [1, 2, 3, 4, 5],
                        {i: 1 for i in sch}, {i: {'start_time': a, 'end_time': b} for i, (a, b) in sch.items()})
        s = d.get_initial_state()
        while not d.is_terminal(s):
            a = p.sample_action(s)
            if a.task is not None:
                starts[delta, a.task] = s.t
            s = d.get_next_state(s, a)
            if s.t > 50:
                break
assert starts[2, 4] >= 5, starts
assert starts[3, 4] == 0, starts
assert starts[4, 4] == 0, starts
''', 'a task planned exactly delta later than the first task of the list', 'the freedom of the policy ends one time unit early')

bug('C31-meta-last', 'C31', [(H + 'meta_policy/meta_policies.py', "                    results[method] += states[-1].t-observation.t # TODO, this is a trick...", "                    results[method] = states[-1].t-observation.t # TODO, this is a trick...")], '''
import io, contextlib, itertools
import skdecide.hub.solver.meta_policy.meta_policies as M
class S:
    def __init__(self, t): self.t = t
    def copy(self): return self
class P:
    def __init__(self, a, ts): self.a, self.ts = a, itertools.cycle(ts)
    def get_next_action(self, o): return self.a
class Dom:
    fast = False
    inplace_environment = False
    def set_inplace_environment(self, b): self.inplace_environment = b
M.rollout_episode = lambda domain, solver, from_memory=None, **k: ([from_memory, S(next(solver.ts))], [solver.a], [])
with contextlib.redirect_stdout(io.StringIO()):
    m = M.MetaPolicy({'x': P('x', [10, 10, 30]), 'y': P('y', [20, 20, 20]), 'z': P('z', [40, 40, 1])}, Dom(), Dom(), nb_rollout_estimation=3, verbose=False)
    a = m._get_next_action(S(0))
assert a == 'x', a
''', 'several rollouts per policy and an uncertain project', 'the policy is chosen on its last simulated episode instead of all of them')

bug('C23-cpm-modes', 'C23', [(DO + 'rcpsp/solver/cpm.py', """            min_duration = min([self.rcpsp_model.mode_details[node][k]["duration"]
                                for k in self.rcpsp_model.mode_details[node]])
            if forward:
                self.map_node[node].set_earliest_finish_date(time+min_duration)""", """            min_duration = self.rcpsp_model.mode_details[node][min(self.rcpsp_model.mode_details[node])]["duration"]
            if forward:
                self.map_node[node].set_earliest_finish_date(time+min_duration)""")], '''
import io, contextlib, os, sys
from unittest.mock import MagicMock
for n in ('gurobi', 'gurobipy', 'docplex', 'docplex.mp', 'docplex.mp.model', 'docplex.mp.dvar', 'mip', 'pymzn'):
    try:
        __import__(n)
    except Exception:
        sys.modules[n] = MagicMock()
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import MultiModeRCPSPModel
import importlib.util, types
P = 'skdecide.builders.discrete_optimization.rcpsp.solver'
if P not in sys.modules:
    import skdecide.builders.discrete_optimization.rcpsp as R
    pk = types.ModuleType(P)
    pk.__path__ = [os.path.join(os.path.dirname(R.__file__), 'solver')]
    sys.modules[P] = pk
CPM = importlib.import_module(P + '.cpm').CPM
for d2 in ((3, 5), (5, 3)):
    md = {1: {1: {'R': 0, 'duration': 0}}, 2: {1: {'R': 1, 'duration': d2[0]}, 2: {'R': 1, 'duration': d2[1]}}, 3: {1: {'R': 1, 'duration': 4}}, 4: {1: {'R': 0, 'duration': 0}}}
    m = MultiModeRCPSPModel(resources={'R': 2}, non_renewable_resources=[], mode_details=md, successors={1: [2], 2: [3], 3: [4], 4: []}, horizon=40, horizon_multiplier=1)
    with contextlib.redirect_stdout(io.StringIO()):
        c = CPM(m)
        c.run_classic_cpm()
    assert c.map_node[4]._ESD == 7, (d2, c.map_node[4]._ESD)
''', 'a task whose fastest mode is not its first one', 'the critical path is longer than the shortest possible project')

bug('C27-used-facility', 'C27', [(DO + 'facility/facility_model.py', """            facility_details[f]["capacity_used"] += self.customers[i].demand
            facility_details[f]["customers"].add(i)""", """            if self.customers[i] not in [self.customers[k] for k in facility_details[f]["customers"]]:
                facility_details[f]["capacity_used"] += self.customers[i].demand
            facility_details[f]["customers"].add(i)""")], '''
from skdecide.builders.discrete_optimization.facility.facility_model import *
for a, b in ((0, 1), (0, 0)):
    p = FacilityProblem2DPoints(2, 2, [Facility(0, 5., 6., Point(0, 0)), Facility(1, 5., 6., Point(9, 9))], [Customer(a, 4., Point(1, 1)), Customer(b, 4., Point(1, 1))])
    d = p.evaluate(FacilitySolution(p, [0, 0]))
    assert d['capacity_constraint_violation'] == 2, (a, b, d)
    assert not p.satisfy(FacilitySolution(p, [0, 0]))
''', 'two identical customer records served by one facility', 'the load of the facility is too small and an overload passes')

bug('C29-other-skill', 'C29', [(DO + 'rcpsp_multiskill/rcpsp_multiskill.py', "            if usage > self.resources_availability[res][0]:\n                print('Non-renewable res'", "            if usage > max(self.resources_availability[res][0], max(self.mode_details[a][m][res] for a in self.tasks for m in self.mode_details[a])):\n                print('Non-renewable res'")], '''
import io, contextlib
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import *
md = {1: {1: {'N': 0, 'R': 0, 'A': 0, 'duration': 0}}, 2: {1: {'N': 4, 'R': 0, 'A': 0, 'duration': 0}, 2: {'N': 1, 'R': 1, 'A': 1, 'duration': 3}}, 3: {1: {'N': 0, 'R': 0, 'A': 0, 'duration': 0}}}
for av in (4, 3):
    m = MS_RCPSPModel(skills_set={'A'}, resources_set={'N', 'R'}, non_renewable_resources={'N'}, resources_availability={'N': [av] * 30, 'R': [1] * 30},
                      employees={0: Employee({'A': SkillDetail(1, 1, 1)}, [True] * 30)}, employees_availability=[1] * 30, mode_details=md, successors={1: [2], 2: [3], 3: []}, horizon=30, horizon_multiplier=1)
    with contextlib.redirect_stdout(io.StringIO()):
        for mode, dur, need in ((1, 0, 4), (2, 3, 1)):
            s = MS_RCPSPSolution(m, {1: 1, 2: mode, 3: 1}, {1: {'start_time': 0, 'end_time': 0}, 2: {'start_time': 0, 'end_time': dur}, 3: {'start_time': dur, 'end_time': dur}}, {2: {0: {'A'}}} if dur else {})
            assert m.satisfy(s) == (need <= av), (av, mode)
''', 'an instantaneous task that asks for more of a non-renewable resource than there is', 'a schedule that uses more than the stock is accepted')

bug('C30-skills-mode', 'C30', [(H + 'do_solver/sk_to_do_binding.py', "                skills = scheduling_domain.get_skills_of_task(task=task, mode=mode)\n", "                skills = scheduling_domain.get_skills_of_task(task=task, mode=min(modes_details[task]))\n")], '''
import io, contextlib
from skdecide.hub.domain.rcpsp.rcpsp_sk import MSRCPSP
from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain
md = {1: {1: {'R': 0, 'duration': 0}}, 2: {1: {'R': 1, 'A': 1, 'duration': 2}, 2: {'R': 1, 'B': 2, 'duration': 3}}, 3: {1: {'R': 0, 'duration': 0}}}
with contextlib.redirect_stdout(io.StringIO()):
    d = MSRCPSP(skills_names=['A', 'B'], resource_unit_names=['w'], resource_type_names=['R'], resource_skills={'w': {'A': 1, 'B': 2}, 'R': {}}, task_ids=[1, 2, 3], tasks_mode=md, successors={1: [2], 2: [3], 3: []},
                max_horizon=30, resource_availability={'R': 1, 'w': 1}, resource_renewable={'R': True, 'w': True})
    m = build_do_domain(d)
got = {k: {s: m.mode_details[2][k].get(s, 0) for s in 'AB'} for k in (1, 2)}
assert got == {1: {'A': 1, 'B': 0}, 2: {'A': 0, 'B': 2}}, got
''', 'a multi-skill task with several modes asking for different skills', 'the optimisation model gives all modes the skills of the first one')

bug('C34-parallel-father', 'C34', [(H + 'cgp/pycgp/cgpes.py', """				for i in range(self.num_offsprings):
					self.offsprings[i] = self.father.clone()
""", """				for i in range(self.num_offsprings):
					self.offsprings[i] = self.father.clone() if i or not self.it % 2 else self.father
""")], '''
import io, os, contextlib, tempfile
import skdecide.hub.solver.cgp.pycgp.cgpes as E
class G:
    n = 0
    def __init__(self, v, born=0): self.v = v
    def clone(self): return G(self.v)
    def mutate_per_gene(self, a, b):
        G.n += 1
        self.v -= G.n      # only ever gets worse
    def save(self, f): pass
class Ev:
    def clone(self): return self
    def evaluate(self, g, it): return g.v
E.Parallel = lambda n_jobs: (lambda jobs: [f() for f in jobs])
E.delayed = lambda f: (lambda *a: (lambda: f(*a)))
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    for cpus in (1, 2):
        f = G(100)
        es = E.CGPES(3, .1, .1, f, Ev(), folder=d + '/g', num_cpus=cpus)
        es.run(4)
        assert (es.father.v, es.current_fitness) == (100, 100), (cpus, es.father.v, es.current_fitness)
''', 'parallel evaluation (more than one CPU)', 'the best genome is mutated in place and lost')

bug('C35-bfws-functor', 'C35', [(H + 'bfws/bfws.py', "d.call(None, 1, s)", "d.call(None, 0, s)")], '''
import sys, types
mod = types.ModuleType('__skdecide_hub_cpp')
got = {}
class Stub:
    def __init__(self, **k): got.update(k)
    def clear(self): pass
mod._BFWSSolver_ = Stub
sys.modules['__skdecide_hub_cpp'] = mod
from skdecide.hub.solver.bfws.bfws import BFWS
class Dom:
    def call(self, i, k, s): return ('functor', k, s)
class Par(BFWS):
    def get_domain(self): return Dom()
fs = [lambda d, s: 'features', lambda d, s: 'heuristic', lambda d, s: 'termination']
for par in (False, True):
    b = Par(domain_factory=Dom, state_features=fs[0], heuristic=fs[1], termination_checker=fs[2], parallel=par)
    b._init_solve(Dom)
    for k, name in enumerate(('state_features', 'heuristic', 'termination_checker')):
        v = got[name](Dom(), 7)
        assert v == (('functor', k, 7) if par else fs[k](None, 7)), (par, name, v)
        if par:
            assert b._lambdas[v[1]](None, 7) == fs[k](None, 7)
''', 'parallel planning', 'the heuristic is answered by the state features')

bug('C19-late-need', 'C19', [(B + 'scheduling/scheduling_domains.py', """                                                     state.tasks_details[task_id].get_task_active_time(state.t+1))
            for r in resource_to_use:
""", """                                                     state.t + 1 - state.tasks_details[task_id].start)
            for r in resource_to_use:
""")], '''
import io, contextlib
from skdecide.builders.scheduling.modes import VaryingModeConsumption
from skdecide.builders.scheduling.scheduling_domains import SchedulingAction as A, SchedulingActionEnum as E, SingleModeRCPSP, SchedulingObjectiveEnum
from skdecide.hub.domain.rcpsp.rcpsp_sk import RCPSP
from skdecide.builders.scheduling.preemptivity import WithPreemptivity, ResumeType
N = [1, 2, 3, 4, 5, 6]
class Dom(RCPSP):
    def _get_tasks_modes(self):
        m = super()._get_tasks_modes()
        m[2] = {1: VaryingModeConsumption({'R': list(N)})}
        return m
    def _get_preemptivity(self): return {t: True for t in (1, 2, 3)}
    def _get_resume_type(self): return {t: ResumeType.Regular for t in (1, 2, 3)}
    def _get_task_paused_non_renewable_resource_returned(self): return {t: False for t in (1, 2, 3)}
    def _get_resumable_type(self): return {t: ResumeType.Easy for t in (1, 2, 3)}
with contextlib.redirect_stdout(io.StringIO()):
    md = {1: {1: {'R': 0, 'duration': 0}}, 2: {1: {'R': 1, 'duration': 6}}, 3: {1: {'R': 0, 'duration': 0}}}
    d = Dom(resource_names=['R'], task_ids=[1, 2, 3], tasks_mode=md, successors={1: [2], 2: [3], 3: []}, max_horizon=60, resource_availability={'R': 9}, resource_renewable={'R': True})
    d.set_inplace_environment(False)
    s = d.get_initial_state()
    step = A(task=None, action=E.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
    do = lambda s, t, e: d.get_next_state(s, A(task=t, action=e, mode=1, time_progress=False, resource_unit_names=None))
    s = do(s, 1, E.START)
    s = d.get_next_state(s, step) if 1 not in s.tasks_complete else s
    s = do(s, 2, E.START)
    use = []
    for k in range(2):
        s = d.get_next_state(s, step)
        use.append(s.resource_used['R'])
    s = do(s, 2, E.PAUSE)
    for k in range(3):
        s = d.get_next_state(s, step)
        use.append(s.resource_used['R'])
    s = do(s, 2, E.RESUME)
    s = d.get_next_state(s, step)
    use.append(s.resource_used['R'])
assert use == [2, 3, 0, 0, 0, 4], use
''', 'a task with a varying need that was paused for some time and resumed', 'the pause counts as activity in the profile of the need')

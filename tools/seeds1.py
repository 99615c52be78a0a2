bug('C01-bound-constraint', 'C01', [('skdecide/core.py', "return BoundConstraint(cast_evaluate_function, self._inequality, self._bound, self._depends_on_next_state)", "return BoundConstraint(cast_evaluate_function, self._inequality, self._bound)")], '''
from typing import Union
from skdecide import Memory, StrDict, BoundConstraint, autocastable, autocast_all
from skdecide.core import D, Constraint
from typing import List
class Src:
    T_memory, T_agent, T_concurrency = Memory, StrDict, List
    T_state = T_event = object
class Dst:
    T_memory, T_agent, T_concurrency = Union, Union, Union
    T_state = T_event = object
class Holder(Src):
    @autocastable
    def get_constraints(self) -> 'List[Constraint[D.T_memory[D.T_state], D.T_agent[D.T_concurrency[D.T_event]], D.T_state]]':
        return [BoundConstraint(lambda m, a, s=None: len(m), '<=', 1, False), BoundConstraint(lambda m, a, s: 1, '<', 2, True)]
h = Holder()
autocast_all(h, Src, Dst)
c = h.get_constraints()
assert c[0].check(5, 1, None) and c[0].evaluate(5, 1, None) == 1
assert c[1].is_constraint_dependent_on_next_state() is True
assert c[0].is_constraint_dependent_on_next_state() is False
''', 'a bound constraint independent of the next state, seen from another modelling level', 'the cast bound constraint loses its independence from the next state')

bug('C01-outcome-info', 'C01', [('skdecide/core.py', """                                  cast(self.value, src_sub[1], dst_sub[1]), self.termination,
                                  cast(self.info, src_sub[2], dst_sub[2]))

""" if False else """        return EnvironmentOutcome(cast(self.observation, src_sub[0], dst_sub[0]),
                                  cast(self.value, src_sub[1], dst_sub[1]), self.termination,
                                  cast(self.info, src_sub[2], dst_sub[2]))""", """        return EnvironmentOutcome(cast(self.observation, src_sub[0], dst_sub[0]),
                                  cast(self.value, src_sub[1], dst_sub[1]), self.termination,
                                  cast(self.info, src_sub[2], dst_sub[2]) if self.info else None)""")], '''
from typing import Union
from skdecide import StrDict, EnvironmentOutcome, TransitionValue, autocastable, autocast_all
from skdecide.core import D
class Src:
    T_agent = Union
class Dst:
    T_agent = StrDict
class Holder(Src):
    T_observation = T_value = T_info = object
    @autocastable
    def step(self, x) -> 'EnvironmentOutcome[D.T_agent[D.T_observation], D.T_agent[TransitionValue[D.T_value]], D.T_agent[D.T_info]]':
        return EnvironmentOutcome(1, TransitionValue(cost=2), False, x)
Src.T_observation = Src.T_value = Src.T_info = Dst.T_observation = Dst.T_value = Dst.T_info = object
for info in ({'k': 1}, {}, 0, [], 'a'):
    h = Holder()
    autocast_all(h, Src, Dst)
    o = h.step(info)
    assert o.info == {'agent': info}, o
''', 'an outcome whose extra information is empty or zero', 'falsy outcome information is replaced by None when cast')

bug('C02-falsy-initial', 'C02', [('skdecide/builders/domain/memory.py', "content = [state] if state is not None else []", "content = [state] if state else []")], '''
from skdecide import *
from skdecide.builders.domain import *
class D0(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, FiniteHistory, FullyObservable, Rewards):
    T_state = T_observation = T_event = int
    def __init__(self, s0): self.s0 = s0
    def _get_memory_maxlen_(self): return 3
    def _get_initial_state_(self): return self.s0
    def _get_next_state(self, memory, action): return sum(memory) + len(memory) + action
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=1)
    def _is_terminal(self, s): return False
for s0 in (5, 0):
    d = D0(s0)
    assert d.reset() == s0
    assert d.step(1).observation == s0 + 2, s0
    assert d.step(1).observation == s0 + (s0 + 2) + 3
''', 'a history domain whose initial state is falsy (0, empty tuple)', 'the initial state is not recorded in the memory')

bug('C02-sample-memory', 'C02', [('skdecide/builders/domain/initialization.py', "        self._memory = self._init_memory(initial_state)\n", "        if isinstance(getattr(self, '_memory', None), Memory):  # reuse the container\n            self._memory.append(initial_state)\n        else:\n            self._memory = self._init_memory(initial_state)\n"),
     ('skdecide/builders/domain/initialization.py', "from skdecide.core import D, Distribution, SingleV", "from skdecide.core import D, Memory, Distribution, SingleV")], '''
from skdecide import *
from skdecide.builders.domain import *
class D0(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, History, FullyObservable, Rewards):
    T_state = T_observation = T_event = int
    def _get_initial_state_(self): return 1
    def _get_next_state(self, memory, action): return len(memory) + action
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=1)
    def _is_terminal(self, s): return False
d = D0()
for ep in range(3):
    d.reset()
    assert [d.step(0).observation for _ in range(3)] == [1, 2, 3], ep
''', 'a second episode of a domain remembering all its past states', 'reset does not clear the history of the previous episode')

bug('C03-falsy-memory', 'C03', [('skdecide/builders/domain/events.py', '''        if memory is None:
            memory = self._memory
        return self._is_applicable_action_from(action, memory)''', '''        return self._is_applicable_action_from(action, memory or self._memory)''')], '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide import ImplicitSpace
class D0(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, Markovian, FullyObservable, Rewards):
    T_state = T_observation = T_event = int
    def _get_initial_state_(self): return 3
    def _get_applicable_actions_from(self, m): return ImplicitSpace(lambda a: a > m)
    def _get_next_state(self, memory, action): return memory + action
d = D0()
d.reset()
for m in (0, 1, 5, None):
    for a in range(8):
        assert d.is_applicable_action(a, m) == (a > (3 if m is None else m)), (m, a)
''', 'asking from an explicit memory that is falsy (state 0) while the current one differs', 'applicability is evaluated in the current memory instead of the given one')

bug('C03-partial-agents', 'C03', [('skdecide/builders/domain/goals.py', "return all(goals[k].contains(v) for k, v in observation.items())", "return any(goals[k].contains(v) for k, v in observation.items())")], '''
from skdecide import *
from skdecide.builders.domain import *
class D0(Domain, MultiAgent, Sequential, DeterministicTransitions, Actions, Goals, DeterministicInitialized, Markovian, FullyObservable, Rewards):
    T_state = T_observation = T_event = int
    def _get_goals_(self): return {'a': ImplicitSpace(lambda o: o == 1), 'b': ImplicitSpace(lambda o: o == 2)}
d = D0()
assert d.is_goal({'a': 1, 'b': 2})
assert not d.is_goal({'a': 0, 'b': 0})
assert not d.is_goal({'a': 1, 'b': 0})
''', 'several agents of which only some have reached their goal', 'the goal is reported reached when only one agent is there')

bug('C04-duplicates', 'C04', [('skdecide/core.py', "        unzip_values = list(zip(*values))", "        try:  # sample over the distinct elements only\n            unzip_values = list(zip(*dict(values).items()))\n        except TypeError:\n            unzip_values = list(zip(*values))")], '''
from skdecide import DiscreteDistribution
import random
random.seed(3)
d = DiscreteDistribution([('x', .25), ('y', .25), ('x', .5)])
n = sum(d.sample() == 'x' for _ in range(4000))
assert abs(n - 3000) < 200, n
d = DiscreteDistribution([('x', .45), ('y', .5), ('x', .05)])
n = sum(d.sample() == 'x' for _ in range(4000))
assert abs(n - 2000) < 200, n
''', 'a distribution listing the same element several times', 'the element keeps only its last weight')

bug('C05-own-requirement', 'C05', [('skdecide/solvers.py', "sorted_ancestors = list(cls.T_domain.__mro__[:-1])", "sorted_ancestors = list(cls.T_domain.__mro__[1:-1])")], '''
from skdecide import *
from skdecide.builders.domain import *
class S1(Solver):
    T_domain = Goals
class S2(Solver):
    class T_domain(Domain, SingleAgent, Goals): pass
class A(Domain, SingleAgent, Sequential): pass
class B(Domain, SingleAgent, Sequential, Goals): pass
assert S1.get_domain_requirements() == [Goals]
assert [S1.check_domain(A()), S1.check_domain(B())] == [False, True]
assert [S2.check_domain(A()), S2.check_domain(B())] == [False, True]
''', 'a solver whose domain type is a single characteristic', 'the requirement is dropped and every domain is accepted')

bug('C06-falsy-memory', 'C06', [('skdecide/utils.py', '''        if from_memory is None:
            observation = domain.reset()
        else:
            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        logger.debug(''', '''        if not from_memory:
            observation = domain.reset()
        else:
            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        logger.debug(''')], '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.utils import rollout
seen = []
class D0(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, Markovian, FullyObservable, Rewards):
    T_state = T_observation = T_event = int
    def _get_initial_state_(self): return 10
    def _get_next_state(self, memory, action): return memory + action
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=1)
    def _is_terminal(self, s): return s % 10 == 5
class S(DeterministicPolicySolver):
    T_domain = D0
    def _get_next_action(self, observation):
        seen.append(observation)
        return 1
    def _is_policy_defined_for(self, o): return True
for m in (2, 0):
    del seen[:]
    rollout(D0(), S(), from_memory=m, max_steps=3, verbose=False, render=False)
    assert seen == [m, m + 1, m + 2], (m, seen)
''', 'a rollout from an explicit memory that is falsy (state 0)', 'the rollout restarts from the initial state instead')

bug('C07-shm-args', 'C07', [('skdecide/domains.py', "type_counters[arg_name] += self._shm_sizes[arg_name]", "type_counters[arg_name] += 1")], '''
from pathos.helpers import mp
from skdecide import *
from skdecide.builders.domain import *
from skdecide.domains import ShmParallelDomain
class Pt:
    def __init__(self, a, b): self.a, self.b = a, b
class D0(DeterministicPlanningDomain):
    def join(self, p, q): return p.a * 1000 + p.b * 100 + q.a * 10 + q.b
class Proxy:
    def copy(self): return Proxy()
    def register(self): return [(Pt, 2), (int, 1)]
    def initialize(self, t): return mp.Value('l', 0) if t is int else [mp.Value('l', 0), mp.Value('l', 0)]
    def encode(self, v, shm):
        if isinstance(v, Pt): shm[0].value, shm[1].value = v.a, v.b
        else: shm.value = v
    def decode(self, t, shm): return Pt(shm[0].value, shm[1].value) if t is Pt else shm.value
with ShmParallelDomain(D0, Proxy(), nb_domains=1) as d:
    i = d.join(Pt(1, 2), Pt(3, 4))
    r = d.get_result(i)
assert r == 1234, r
''', 'two arguments of a type stored in several arrays, over shared memory', 'the second argument overwrites the first one')

bug('C07-stale-result', 'C07', [('skdecide/domains.py', "        job_results[i] = None\n        if job is None", "        if job is None"), ('skdecide/domains.py', "        r = self._job_results[i]\n        self._job_results[i] = None\n", "        r = self._job_results[i]\n")], '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.domains import PipeParallelDomain
class D0(DeterministicPlanningDomain):
    def inv(self, x): return 12 // x
with PipeParallelDomain(D0, nb_domains=1) as d:
    out = []
    for x in (3, 0, 4):
        out.append(d.get_result(d.inv(x)))
assert out == [4, None, 3], out
''', 'a failing job after a successful one on the same piped domain', 'the failed job returns the previous result')

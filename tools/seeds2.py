GR = '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
class G(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals, Markovian, FullyObservable, PositiveCosts, DeterministicInitialized):
    T_state = T_observation = T_event = object
    def __init__(self, edges, goals, start=0):
        self.edges, self.goals, self.start = edges, goals, start      # state -> {action: (next, cost)}
    def _get_initial_state_(self): return self.start
    def _get_action_space_(self): return ListSpace(sorted({a for e in self.edges.values() for a in e}))
    def _get_applicable_actions_from(self, m): return ListSpace(list(self.edges.get(m, {})))
    def _get_next_state(self, m, a): return self.edges[m][a][0]
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=self.edges[m][a][1])
    def _is_terminal(self, s): return s in self.goals
    def _get_goals_(self): return ListSpace(list(self.goals))
    def _get_observation_space_(self): return ListSpace(list(self.edges))
def follow(d, s):
    at, cost, seen = d.start, 0, []
    while at not in d.goals:
        a = s.get_next_action(at)
        assert a in d.edges[at] and len(seen) < 50, (at, a)
        seen.append(at)
        at, c = d.edges[at][a]
        cost += c
    return cost, seen
'''
bug('C08-close-on-generation', 'C08', [('skdecide/hub/solver/lazy_astar/lazy_astar.py', "            neigh_not_explored = [(n, a) for n, a in neigh if n not in explored]\n", "            best = {}  # keep one action per successor\n            for n, a in neigh:\n                best.setdefault(n, a)\n            neigh_not_explored = [(n, a) for n, a in best.items() if n not in explored]\n")], GR + '''
from skdecide.hub.solver.lazy_astar import LazyAstar
d = G({0: {'a': (1, 5), 'b': (1, 2), 'c': (2, 1)}, 1: {'a': (3, 1)}, 2: {'a': (3, 9)}}, {3})
s = G.solve_with(LazyAstar(), lambda: d)
assert follow(d, s) == (3, [0, 1]), follow(d, s)
assert [s.get_utility(x) for x in (0, 1, 3)] == [3, 1, 0]
''', 'two actions of different costs from one state to the same next one', 'the plan uses the first action listed instead of the cheapest')

bug('C08-stale-queue', 'C08', [('skdecide/hub/solver/lazy_astar/lazy_astar.py', "                    if qcost <= ncost:", "                    if qcost <= ncost + self._weight * h:")], GR + '''
from skdecide.hub.solver.lazy_astar import LazyAstar
h = {0: 4, 1: 3, 2: 2, 3: 2, 4: 0}
d = G({0: {'a': (2, 4), 'b': (1, 1)}, 1: {'a': (2, 1)}, 2: {'a': (4, 2)}}, {4})
s = G.solve_with(LazyAstar(heuristic=lambda d, x: h[x]), lambda: d)
assert follow(d, s) == (4, [0, 1, 2]), follow(d, s)
s = G.solve_with(LazyAstar(), lambda: d)
assert follow(d, s)[0] == 4
''', 'a state reached first by a dearer way, with a positive heuristic', 'a cheaper way to a queued state is dropped unless it beats the heuristic too')

bug('C09-tie-heuristic', 'C09', [('skdecide/hub/solver/lrtastar/lrtastar.py', "(self.values[current_state] != best_estimated_cost)", "(self.values[current_state] < int(best_estimated_cost))")], GR + '''
from skdecide.hub.solver.lrtastar import LRTAstar
d = G({0: {'a': (1, .25), 'b': (2, .5)}, 1: {'a': (3, .75)}, 2: {'a': (3, .25)}}, {3})
s = G.solve_with(LRTAstar(), lambda: d)
assert follow(d, s)[0] == .75, follow(d, s)
assert s.get_utility(0) == .75
''', 'costs that are not whole numbers', 'values stop rising between whole numbers, so the trials stop on a dearer plan')


bug('C10-greedy-ties', 'C10', [('skdecide/hub/solver/simple_greedy/simple_greedy.py', "                expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)", "                expected_value = sum(p * r for r, p in {domain.get_transition_value(memory, [a], s).reward: p\n                                                        for s, p in next_state_prob}.items())")], '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.solver.simple_greedy import SimpleGreedy
class M(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian, FullyObservable, Rewards):
    T_state = T_observation = T_event = int
    def _get_initial_state_(self): return 0
    def _get_action_space_(self): return ListSpace([0, 1])
    def _get_applicable_actions_from(self, m): return ListSpace([0, 1])
    def _get_next_state_distribution(self, m, a):
        return DiscreteDistribution([(1, .4), (2, .4), (3, .2)] if a else [(4, 1.)])
    def _get_transition_value(self, m, a, n=None): return TransitionValue(reward={1: 10, 2: 10, 3: 0, 4: 6}[n])
    def _is_terminal(self, s): return s > 0
    def _get_observation_space_(self): return ListSpace(range(5))
s = M.solve_with(SimpleGreedy(), M)
assert s.get_next_action(0) == 1, s.get_next_action(0)
''', 'an action with several outcomes of the same reward', 'their probabilities are not added up')

bug('C10-pomcp-order', 'C10', [('skdecide/hub/solver/pomcp/pomcp.py', "            d = self._domain.get_observation_distribution(state, action)\n            prob[i] =", "            d = self._domain.get_observation_distribution(state, self._act_history[0])\n            prob[i] =")], '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.solver.pomcp import POMCP
import random
random.seed(1)
# hidden side 0/1; listening (2) tells the side, opening 0/1 ends; opening the wrong side costs a lot
class T(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized, Markovian, PartiallyObservable, PositiveCosts):
    T_state = T_observation = T_event = object
    def _get_initial_state_distribution_(self): return DiscreteDistribution([(0, .5), (1, .5)])
    def _get_action_space_(self): return ListSpace([0, 1, 2])
    def _get_applicable_actions_from(self, m): return ListSpace([0, 1, 2])
    def _get_next_state_distribution(self, m, a):
        m = m[-1] if isinstance(m, Memory) else m
        return SingleValueDistribution(m if a == 2 or m == 'end' else 'end')
    def _get_transition_value(self, m, a, n=None):
        m = m[-1] if isinstance(m, Memory) else m
        return TransitionValue(cost=1 if a == 2 or a == m else 60)
    def _is_terminal(self, s): return s == 'end'
    def _get_observation_distribution(self, s, a=None):
        return SingleValueDistribution('end' if s == 'end' else 'left' if a == 2 and s == 0 else 'right' if a == 2 else 'none')
    def _get_observation_space_(self): return ListSpace(['none', 'left', 'right', 'end'])
    def _get_goals_(self): return ListSpace(['end'])
for side in (0, 1):
    s = T.solve_with(POMCP(max_iterations=300, max_depth=10, n_samples=40), T)
    s.reset()
    assert s.get_next_action('none') == 2
    s._act_history = s._act_history[:1] + (2,)
    assert s.get_next_action('left' if side == 0 else 'right') == side
''', 'observations that depend on the last action', 'the belief is filtered by the observation law of the first step')

bug('C11-merge', 'C11', [('skdecide/hub/solver/graph_explorer/GraphDomain.py', "                        next_state_attributes[k][action] = graph_domain.next_state_attributes[k][action]\n", "                        next_state_attributes[k] = graph_domain.next_state_attributes[k]\n")], '''
from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain
a = GraphDomain({0: {'x': 1}, 1: {}}, {0: {'x': {'cost': 3}}, 1: {}}, {1}, 'cost')
b = GraphDomain({0: {'y': 2}, 2: {}}, {0: {'y': {'cost': 5}}, 2: {}}, {1}, 'cost')
m = a.merge(b)
assert m.get_transition_value(0, 'y', 2).cost == 5
assert m.get_transition_value(0, 'x', 1).cost == 3
assert sorted(m.get_applicable_actions(0).get_elements()) == ['x', 'y']
''', 'merging graphs that know different actions of the same state', 'the costs of the first graph are lost')

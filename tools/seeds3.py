SP = 'skdecide/hub/space/gym/gym.py'
GY = 'skdecide/hub/domain/gym/gym.py'
bug('C16-enum-alias', 'C16', [(SP, "        self._list_enum = list(enum_class)\n", "        self._list_enum = list(enum_class.__members__.values())\n")], '''
from enum import Enum
from skdecide.hub.space.gym import EnumSpace
class Move(Enum):
    stay = 0
    wait = 0
    go = 1
    run = 2
s = EnumSpace(Move)
assert list(s.get_elements()) == [Move.stay, Move.go, Move.run], s.get_elements()
assert {s.sample() for _ in range(300)} == set(Move)
assert list(s.to_unwrapped(Move)) == [0, 1, 2]
''', 'an enumeration with two names for one value', 'the space enumerates an element twice, samples some elements never and maps others outside the Gym space')

bug('C16-data-order', 'C16', [(SP, "        return [self._data_class(**sample) for sample in sample_n]\n", "        return [self._data_class(*sample.values()) for sample in sample_n]\n")], '''
from dataclasses import dataclass
import gym.spaces as G
from skdecide.hub.space.gym import DataSpace
@dataclass
class Pos:
    x: int
    y: int
@dataclass
class Move:
    to: int
    by: int
for c, a, b in ((Pos, 'x', 'y'), (Move, 'to', 'by')):
    s = DataSpace(c, {a: G.Discrete(3), b: G.Discrete(9)})
    m = c(1, 7)
    assert list(s.from_unwrapped(s.to_unwrapped([m]))) == [m]
    assert list(s.from_jsonable(s.to_jsonable([m]))) == [m], list(s.from_jsonable(s.to_jsonable([m])))
''', 'a data class whose fields are not in alphabetical order (Gym sorts the keys of a dictionary)', 'elements read back from JSON have their fields exchanged')

GE = '''
import gym, gym.spaces, numpy as np
class Env(gym.Env):
    action_space = gym.spaces.Discrete(3)
    observation_space = gym.spaces.Box(-1e6, 1e6, (2,), np.float64)
    def __init__(self): self.x = 0.
    def reset(self):
        self.x = 0.
        return self.obs()
    def obs(self): return np.array([self.x, 1.])
    def step(self, a):
        self.x += (a + 1) * self.UNIT
        return self.obs(), float(a), False, {}
    UNIT = 1.
'''
bug('C17-set-memory', 'C17', [(GY, "            self._init_env = state._context\n            self._gym_env = deepcopy(self._init_env)\n", "            self._init_env = state._context\n            self._gym_env = self._init_env\n")], GE + '''
from skdecide.hub.domain.gym import DeterministicInitializedGymDomain
d = DeterministicInitializedGymDomain(Env())
s = d.reset()
assert list(s._state) == [0, 1]
d.set_memory(s)
runs = []
for _ in range(3):
    runs.append([float(d.step(a).observation._state[0]) for a in (0, 1, 2)])
    d.reset()
assert runs == [[1, 3, 6]] * 3, runs
''', 'set_memory, then steps, then another reset (without get_state and set_state)', 'the saved environment is the one that steps, so later episodes start where an earlier one ended')

bug('C17-close-states', 'C17', [(GY, "            return [e.item(c) for c in range(e.size)]\n        elif isinstance(e, tuple):", "            return np.round(e.astype(float), 6).flatten().tolist()\n        elif isinstance(e, tuple):")], GE + '''
from skdecide.hub.domain.gym import GymDomainHashable
Env.UNIT = 1e-8
d = GymDomainHashable(Env())
seen = [d.reset()] + [d.step(1).observation for _ in range(4)]
assert len(set(seen)) == 5, len(set(seen))
assert all(a != b for i, a in enumerate(seen) for b in seen[:i])
''', 'observations that differ by less than a millionth', 'different states are equal and have the same hash')

bug('C17-half-bounded', 'C17', [(GY, "                if l == -float('inf') or h == float('inf'):\n                    actions", "                if l == -float('inf') and h == float('inf'):\n                    actions")], GE + '''
import warnings
warnings.simplefilter('ignore')
from skdecide.hub.domain.gym import DeterministicGymDomain, GymDiscreteActionDomain
class D(DeterministicGymDomain, GymDiscreteActionDomain):
    def __init__(self, env):
        DeterministicGymDomain.__init__(self, env)
        GymDiscreteActionDomain.__init__(self, 4)
for low, high in ((-np.inf, np.inf), (-1., np.inf), (-np.inf, 2.), (-1., 2.)):
    Env.action_space = gym.spaces.Box(low, high, (1,), np.float64)
    acts = D(Env()).get_applicable_actions().get_elements() if False else D(Env())._applicable_actions.get_elements()
    assert len(acts) == 4 and all(np.isfinite(a).all() and Env.action_space.contains(a) for a in acts), (low, high, acts)
''', 'an action box bounded on one side only', 'actions are infinite or not numbers')

bug('C18-opposite-openings', 'C18', [('skdecide/hub/domain/maze/maze.py', "        if 0 <= next_state.x < self._num_cols and 0 <= next_state.y < self._num_rows and self._maze[next_state.y][\n                next_state.x] == 1:\n", "        if next_state.x < self._num_cols and next_state.y < self._num_rows and \\\n                self._maze[next_state.y][next_state.x] == 1:\n")], '''
from skdecide.hub.domain.maze import Maze
from skdecide.hub.domain.maze.maze import Action, State
d = Maze("""
+o+-+
| | |
+ + +
|   |
+x+-+
""")
assert d.get_initial_state() == State(1, 0)
assert d.get_next_state(State(1, 0), Action.up) == State(1, 0)
assert d.get_next_state(State(1, 0), Action.down) == State(1, 1)
d = Maze("+-+\\no  \\n+-x")
assert d.get_next_state(State(0, 1), Action.left) == State(0, 1)
''', 'openings opposite one another on the border, as start and exit', 'a move out of the maze enters it on the other side')

bug('C18-repeated-colours', 'C18', [('skdecide/hub/domain/mastermind/mastermind.py', "                    if guess[i] == solution[j] and not bulls[j] and not cows[j]:\n                        cows[j] = True\n                        break\n", "                    if guess[i] == solution[j] and not bulls[j]:\n                        cows[i] = True\n                        break\n")], '''
from skdecide.hub.domain.mastermind import MasterMind
from skdecide.hub.domain.mastermind.mastermind import State, Score
d = MasterMind(3, 4)
def score(code, guess):
    bulls = sum(a == b for a, b in zip(code, guess))
    return bulls, sum(min(code.count(c), guess.count(c)) for c in set(guess)) - bulls
for code in d._list_hidden_solutions():
    for guess in [(0, 0, 1, 2), (1, 1, 2, 2), (0, 1, 2, 0), (2, 2, 2, 1)]:
        s = d.get_next_state(State(code, Score(0, 0)), guess)
        assert tuple(s.score) == score(code, guess), (code, guess, s)
''', 'a guess that repeats a colour misplaced more often than the code holds it', 'the answer counts one peg of the code for several of the guess')

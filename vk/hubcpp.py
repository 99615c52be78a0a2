"""A stand-in for the compiled module __skdecide_hub_cpp: same classes, same argument names and methods as the bindings declare (read in cpp/src/hub/solver/py_*.cc), and the same
protocol with the Python side (domain and functors called directly in sequential mode; launched, notified and collected in parallel mode), but a small exact planner inside."""
import enum
import os
import re
import sys
import types

from vk.common import REPO

SOURCES = {'_AStarSolver_': 'py_astar.cc', '_AOStarSolver_': 'py_aostar.cc', '_BFWSSolver_': 'py_bfws.cc', '_IWSolver_': 'py_iw.cc', '_RIWSolver_': 'py_riw.cc',
           '_LRTDPSolver_': 'py_lrtdp.cc', '_ILAOStarSolver_': 'py_ilaostar.cc', '_MCTSSolver_': 'py_mcts.cc'}
BASE_METHODS = ['clear', 'solve', 'is_solution_defined_for', 'get_next_action', 'get_utility']
COMMON = [('domain', True), ('parallel', False), ('debug_logs', False)]
# what the bindings declare, used when their text cannot be read
FALLBACK = {
    '_AStarSolver_': (COMMON + [('goal_checker', True), ('heuristic', True)], []),
    '_AOStarSolver_': (COMMON + [('goal_checker', True), ('heuristic', True), ('discount', False), ('max_tip_expansions', False), ('detect_cycles', False)], []),
    '_BFWSSolver_': (COMMON + [('state_features', True), ('heuristic', True), ('termination_checker', True), ('use_state_feature_hash', False)], []),
    '_IWSolver_': (COMMON + [('state_features', True), ('use_state_feature_hash', False), ('node_ordering', False), ('time_budget', False)],
                   ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_intermediate_scores']),
    '_RIWSolver_': (COMMON + [('state_features', True)] + [(n, False) for n in ('use_state_feature_hash', 'use_simulation_domain', 'time_budget', 'rollout_budget', 'max_depth', 'exploration', 'discount', 'online_node_garbage')],
                    ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix']),
    '_LRTDPSolver_': (COMMON + [('goal_checker', True), ('heuristic', True)] + [(n, False) for n in ('use_labels', 'time_budget', 'rollout_budget', 'max_depth', 'discount', 'epsilon', 'online_node_garbage')],
                      ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy']),
    '_ILAOStarSolver_': (COMMON + [('goal_checker', True), ('heuristic', True), ('discount', False), ('epsilon', False)], ['get_nb_of_explored_states', 'best_solution_graph_size', 'get_policy']),
    '_MCTSSolver_': (COMMON + [(n, False) for n in ('time_budget', 'rollout_budget', 'max_depth', 'discount', 'uct_mode', 'ucb_constant', 'online_node_garbage', 'custom_policy', 'heuristic', 'transition_mode', 'tree_policy',
                                                    'expander', 'action_selector_optimization', 'action_selector_execution', 'rollout_policy', 'back_propagator')],
                     ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix']),
}
# functors taking the identifier of the calling thread as a last argument
THREADED = {'_RIWSolver_', '_LRTDPSolver_', '_MCTSSolver_'}


def bindings(name):
    """-> ({argument: required}, [methods], read from the sources?)"""
    args, extra = FALLBACK[name]
    try:
        text = open(os.path.join(REPO, 'cpp/src/hub/solver', SOURCES[name])).read()
        text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
        m = re.search(r'py::class_<[^;]*?"%s"' % name, text)
        body = text[m.end():]
        init = body[:body.index('.def("')]
        got = [(a, not eq) for a, eq in re.findall(r'py::arg\(\s*"(\w+)"\s*\)\s*(=?)', init)]
        meth = re.findall(r'\.def\(\s*"(\w+)"', body)
        if got and set(BASE_METHODS) <= set(meth):
            return dict(got), meth, True
    except (OSError, AttributeError, ValueError):
        pass
    return dict(args), BASE_METHODS + extra, False


class Stop(Exception):
    """the protocol was not followed: message already recorded by the observer"""


class Fake:
    """one object of a compiled class; `observer(event, solver, *what)` sees everything"""
    observer = None
    NAME = None

    def __init__(self, *pos, **kw):
        args, self.methods, self.read = bindings(self.NAME)
        names = list(args)
        if len(pos) > len(names):
            raise TypeError(f'{self.NAME}: too many arguments')
        for n, v in zip(names, pos):
            if n in kw:
                raise TypeError(f'{self.NAME}: {n} given twice')
            kw[n] = v
        unknown, missing = set(kw) - set(args), {n for n, r in args.items() if r} - set(kw)
        if unknown or missing:
            raise TypeError(f'{self.NAME}: incompatible constructor arguments (unknown {sorted(unknown)}, missing {sorted(missing)})')
        self.kw = kw
        self.domain = kw['domain']
        self.par = bool(kw.get('parallel', False))
        self.plan = {}
        self.solved = set()
        self.pulls = []
        if self.par:
            from pynng import Pull0
            for c in self.domain.get_ipc_connections():
                p = Pull0(recv_timeout=int(os.environ.get("VK_RECV_MS", "1000000")))
                p.listen(str(c))
                self.pulls.append(p)
        type(self).observer('init', self)

    def shut(self):
        for p in self.pulls:
            p.close()
        self.pulls = []

    # ---- protocol with the Python side
    def collect(self, i, want=None):
        obs = type(self).observer
        obs('launched', self, i, want)
        msg = self.pulls[i].recv()
        if msg != b'0':
            raise RuntimeError(f'the parallel domain answered {msg!r}')
        return self.domain.get_result(i)

    def ask(self, name, *args, i=None):
        if self.par:
            return self.collect(getattr(self.domain, name)(*args, i), i)
        return getattr(self.domain, name)(*args)

    def functor(self, name, s, i=None):
        f = self.kw[name]
        a = (self.domain, s) + ((i,) if self.NAME in THREADED else ())
        return self.collect(f(*a), i if self.NAME in THREADED else None) if self.par else f(*a)

    # ---- the solver
    def clear(self):
        type(self).observer('clear', self)
        self.plan, self.solved = {}, set()

    def outcomes(self, s, a):
        if type(self).deterministic:
            return [(self.ask('get_next_state', s, a), 1.0)]
        return list(self.ask('get_next_state_distribution', s, a).get_values())

    def solve(self, s):
        type(self).observer('solve', self, s)
        # every state reachable, then the values of the costs to a goal (or to a terminal state)
        stop = 'goal_checker' if 'goal_checker' in self.kw else 'termination_checker' if 'termination_checker' in self.kw else None
        todo, succ, end = [s], {}, {}
        n = 0
        while todo:
            x = todo.pop()
            if x in succ or x in end:
                continue
            n += 1
            i = (n % len(self.pulls)) if self.par and n % 3 else None
            if self.functor(stop, x, i) if stop else self.ask('is_terminal', x, i=i):
                end[x] = True
                continue
            type(self).observer('visit', self, x, i)
            acts = []
            for a in self.ask('get_applicable_actions', x, i=i).get_elements():
                out = self.outcomes(x, a)
                acts.append((a, [(y, p, self.ask('get_transition_value', x, a, y, i=i).cost) for y, p in out]))
                todo += [y for y, _ in out]
            succ[x] = acts
        inf = float('inf')
        val = {x: inf for x in succ}
        val.update({x: 0. for x in end})
        for _ in range(len(val) + 1):
            for x, acts in succ.items():
                q = [(sum(p * (c + val[y]) for y, p, c in out), k) for k, (a, out) in enumerate(acts)]
                if q:
                    v, k = min(q)
                    if v < val[x]:
                        val[x] = v
                        self.plan[x] = (acts[k][0], v)
        self.solved |= set(succ) | set(end)
        type(self).observer('solved', self, s, set(succ))

    def is_solution_defined_for(self, s):
        r = s in self.plan
        type(self).observer('defined', self, s, r)
        return r

    def get_next_action(self, s):
        r = self.plan[s][0] if s in self.plan else None
        type(self).observer('next', self, s, r)
        return r

    def get_utility(self, s):
        r = float(self.plan[s][1]) if s in self.plan else 0.0
        type(self).observer('utility', self, s, r)
        return r

    def __getattr__(self, name):
        if name.startswith('__') or name not in self.__dict__.get('methods', ()):
            raise AttributeError(f'{self.NAME} has no method {name}')

        def ask(*a):
            if a:
                raise TypeError(name)
            r = {'get_policy': lambda: {s: v for s, v in self.plan.items()}, 'get_action_prefix': lambda: [a for a, _ in self.plan.values()],
                 'get_intermediate_scores': lambda: [(3, 1.5), (len(self.plan), 2.0)]}.get(name, lambda: 1000 * len(self.solved) + len(name) * 10 + len(self.plan))()
            type(self).observer('statistic', self, name, r)
            return r
        return ask


class _MCTSOptions_:
    class TransitionMode(enum.Enum):
        Step, Sample, Distribution = range(3)

    class TreePolicy(enum.Enum):
        Default = 0

    class Expander(enum.Enum):
        Full = 0

    class ActionSelector(enum.Enum):
        UCB1, BestQValue = range(2)

    class RolloutPolicy(enum.Enum):
        Random, Custom = range(2)

    class BackPropagator(enum.Enum):
        Graph = 0


DETERMINISTIC = {'_AStarSolver_', '_BFWSSolver_', '_IWSolver_', '_RIWSolver_'}


def install():
    m = types.ModuleType('__skdecide_hub_cpp')
    for n in SOURCES:
        setattr(m, n, type(n, (Fake,), {'NAME': n, 'deterministic': n in DETERMINISTIC}))
    m._MCTSOptions_ = _MCTSOptions_
    sys.modules['__skdecide_hub_cpp'] = m
    return m

"""C35 search-solver front ends (A*, AO*, BFWS, IW, RIW, LRTDP, ILAO*, MCTS, UCT): what the user gave reaches the compiled solver and its answers reach the user, unchanged."""
import contextlib
import io
import os
from math import sqrt

from pathos.helpers import mp
from skdecide import Domain, DiscreteDistribution, ImplicitSpace, TransitionValue
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
from vk import hubcpp
from vk.graphs import random_graph, GraphDom, _Empty, N

HUB = hubcpp.install()
from skdecide.hub.solver.astar import Astar             # noqa: E402
from skdecide.hub.solver.aostar import AOstar           # noqa: E402
from skdecide.hub.solver.bfws import BFWS               # noqa: E402
from skdecide.hub.solver.iw import IW                   # noqa: E402
from skdecide.hub.solver.riw import RIW                 # noqa: E402
from skdecide.hub.solver.lrtdp import LRTDP             # noqa: E402
from skdecide.hub.solver.ilaostar import ILAOstar       # noqa: E402
from skdecide.hub.solver.mcts import MCTS, UCT          # noqa: E402

RULE = ('random options, functors and graphs for each of the nine front ends, over a stand-in for the compiled module that declares the same arguments and methods, follows the same protocol '
        '(direct calls, or launched, notified and collected in parallel) and plans exactly; non-trivial = at least one plan was computed and one action asked')
REQUIRED = {'constructed': 800, 'options': 4000, 'default_options': 2000, 'functor_calls': 20000, 'solve_calls': 1500, 'replans': 300, 'no_replan': 300, 'actions': 4000, 'no_action': 150, 'random_actions': 60, 'none_actions': 60,
            'utilities': 900, 'statistics': 600, 'resets': 300, 'goals_reached': 400, 'parallel_requests': 3000, 'parallel_thread': 500, 'parallel_closed': 20, 'shm_requests': 300, 'without_with': 200, 'factory_later': 40, 'policy_defined': 800,
            'orderings': 60}
ASSUMPTIONS = ['the compiled solvers are replaced by a stand-in with the arguments and methods of the bindings: the compiled search itself is decided by C12-C15', 'domains follow the protocol of parallel domains decided by C07']
WATCHDOG = {'quick': 800, 'thorough': 3000}
O = hubcpp._MCTSOptions_


class ChanceDom(GraphDom):
    """edges[state] = list of (action, [(next state, probability, cost)])"""
    T_no = None

    def __init__(self, edges, start, goals):
        self.edges, self.start, self.goals, self.log = edges, start, goals, []
        self.map = {s: dict(es) for s, es in edges.items()}

    def _get_applicable_actions_from(self, m): return ListSpace([a for a, _ in self.edges[m]]) if self.edges[m] else _Empty()
    def _get_action_space_(self): return ListSpace(sorted({a for es in self.edges.values() for a, _ in es}, key=str) or [0])
    def _get_next_state_distribution(self, m, a): return DiscreteDistribution([(y, p) for y, p, _ in self.map[m][a]])
    def _get_next_state(self, m, a): raise AssertionError('deterministic transition asked to an uncertain domain')
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost={y: c for y, _, c in self.map[m][a]}[n])


class UncertainDom(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
    pass


for _n, _f in list(GraphDom.__dict__.items()) + list(ChanceDom.__dict__.items()):
    if not _n.startswith('__') or _n == '__init__':
        setattr(UncertainDom, _n, _f)


def big(rng):
    return rng.choice([0, 1, 7, rng.randint(0, 10 ** 6), 2 ** 40 + rng.randint(0, 99)])


def flag(rng):
    return rng.random() < .5


def unit(rng):
    return rng.choice([0.0, 1.0, 0.5, rng.random(), 1e-9])


# class -> (compiled class, {option: (name there, draw, default)}, functors {option: index among the parallel lambdas}, needs re-planning option)
B = {'debug_logs': ('debug_logs', flag, False)}
TIME = {'time_budget': ('time_budget', big, 3600000), 'rollout_budget': ('rollout_budget', big, 100000), 'max_depth': ('max_depth', big, 1000), 'discount': ('discount', unit, 1.0),
        'online_node_garbage': ('online_node_garbage', flag, False)}


def pick(e):
    return lambda rng: rng.choice(list(e))


MC = {**B, **TIME, 'ucb_constant': ('ucb_constant', unit, 1 / sqrt(2)), 'transition_mode': ('transition_mode', pick(O.TransitionMode), O.TransitionMode.Distribution),
      'rollout_policy': ('rollout_policy', pick(O.RolloutPolicy), O.RolloutPolicy.Random)}
MCF = {'uct_mode': ('uct_mode', flag, True), 'tree_policy': ('tree_policy', pick(O.TreePolicy), O.TreePolicy.Default), 'expander': ('expander', pick(O.Expander), O.Expander.Full),
       'action_selector_optimization': ('action_selector_optimization', pick(O.ActionSelector), O.ActionSelector.UCB1), 'action_selector_execution': ('action_selector_execution', pick(O.ActionSelector), O.ActionSelector.BestQValue),
       'back_propagator': ('back_propagator', pick(O.BackPropagator), O.BackPropagator.Graph)}
HASH = {'use_state_feature_hash': ('use_state_feature_hash', flag, False)}
SOLVERS = {
    Astar: ('_AStarSolver_', B, {'heuristic': True}),
    AOstar: ('_AOStarSolver_', {**B, 'discount': ('discount', unit, 1.0), 'max_tip_expanions': ('max_tip_expansions', big, 1), 'detect_cycles': ('detect_cycles', flag, False)}, {'heuristic': True}),
    BFWS: ('_BFWSSolver_', B, {'state_features': False, 'heuristic': None, 'termination_checker': False}),
    IW: ('_IWSolver_', {**B, **HASH, 'time_budget': ('time_budget', big, 0)}, {'state_features': False}),
    RIW: ('_RIWSolver_', {**B, **HASH, **TIME, 'use_simulation_domain': ('use_simulation_domain', flag, False), 'exploration': ('exploration', unit, .25)}, {'state_features': False}),
    LRTDP: ('_LRTDPSolver_', {**B, **TIME, 'use_labels': ('use_labels', flag, True), 'epsilon': ('epsilon', unit, .001)}, {'heuristic': True}),
    ILAOstar: ('_ILAOStarSolver_', {**B, 'discount': ('discount', unit, 1.0), 'epsilon': ('epsilon', unit, .001)}, {'heuristic': True}),
    MCTS: ('_MCTSSolver_', {**MC, **MCF}, {'custom_policy': True, 'heuristic': True}),
    UCT: ('_MCTSSolver_', MC, {'custom_policy': True, 'heuristic': True}),
}
CONTINUOUS = {RIW, LRTDP, MCTS, UCT}
RESETS = {IW, RIW, MCTS, UCT}
STATS = {Astar: [], AOstar: [], BFWS: [], IW: ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_intermediate_scores'],
         RIW: ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix'], LRTDP: ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy'],
         ILAOstar: ['get_nb_of_explored_states', 'best_solution_graph_size', 'get_policy'], MCTS: ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix'],
         UCT: ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix']}
NEED_OBJ = {'state_features', 'custom_policy'}


class Act:
    def __init__(self, k): self.k = k
    def __eq__(self, o): return isinstance(o, Act) and o.k == self.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return f'Act{self.k}'
    def __str__(self): return f'Act{self.k}'


class Proxy:
    """shared-memory registers for the deterministic domain"""
    def register(self): return [(N, 3), (Act, 2), (ListSpace, 1), (_Empty, 1), (TransitionValue, 1), (bool, 1), (float, 1), (int, 1)]
    def copy(self): return Proxy()

    def initialize(self, t):
        if t in (ListSpace, _Empty):
            return mp.Array('b', 16)
        return mp.Value('d' if t in (TransitionValue, float) else 'i', 0)

    def encode(self, v, shm):
        if isinstance(v, _Empty):
            return
        if isinstance(v, ListSpace):
            el = [a.k for a in v.get_elements()]
            shm[:] = el + [-1] * (16 - len(el))
        else:
            shm.value = v.cost if isinstance(v, TransitionValue) else v.k if isinstance(v, (N, Act)) else v

    def decode(self, t, shm):
        if t is _Empty:
            return _Empty()
        if t is ListSpace:
            return ListSpace([Act(k) for k in shm if k >= 0])
        return TransitionValue(cost=shm.value) if t is TransitionValue else t(shm.value)


def make_domain(rng, uncertain, shm=False):
    """-> (factory, states, goals, start, local domain)"""
    edges, start, goals = random_graph(rng, n=rng.randint(1, 10) if shm or rng.random() < .6 else None, zero=False)
    if len(goals) == len(edges):
        goals = set(list(goals)[:1])
    sts = list(edges)
    if shm:
        num = {s: N(i) for i, s in enumerate(sts)}
        edges = {num[s]: [(Act(k), num[t], c) for k, (a, t, c) in enumerate(es)] for s, es in edges.items()}
        start, goals, sts = num[start], {num[g] for g in goals}, list(edges)
    if not uncertain:
        return (lambda: GraphDom(edges, start, goals)), sts, goals, start
    ch = {}
    for s, es in edges.items():
        ch[s] = []
        for a, t, c in es:
            out = {t: c}
            if rng.random() < .5:
                for u in rng.sample(sts, min(len(sts), rng.randint(1, 2))):
                    out.setdefault(u, rng.randint(1, 5))
            w = [rng.randint(1, 4) for _ in out]
            if (a, ) not in [(x,) for x, _ in ch[s]]:
                ch[s].append((a, [(y, k / sum(w), cc) for (y, cc), k in zip(out.items(), w)]))
    return (lambda: UncertainDom(ch, start, goals)), sts, goals, start


@contextlib.contextmanager
def hush():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class Watch:
    """what the stand-in saw, checked against the protocol as it happens"""

    def __init__(self, run, cls, shm):
        self.run, self.cls, self.shm = run, cls, shm
        self.log, self.solvers, self.dom, self.pids = [], [], None, []
        self.after_init = None
        self.probe = None
        self.depth = 0

    def __call__(self, event, solver, *what):
        if event == 'init':
            self.solvers.append(solver)
            self.log.append((event, solver.NAME))
            if solver.par:
                self.pids = [p.pid for p in solver.domain._processes]
        elif event == 'launched':
            i, want = what
            self.run.hit('shm_requests' if self.shm else 'parallel_requests')
            self.run.check(isinstance(i, int) and 0 <= i < solver.domain.get_parallel_capacity(), 'parallel:no-request-identifier', lambda: f'{i!r}', abort=True)
            if want is not None:
                self.run.hit('parallel_thread')
                self.run.check(i == want, f'{self.cls.__name__}:parallel:other-thread', lambda: f'asked {want} got {i}')
        elif event == 'visit':
            if self.probe:
                self.probe(solver, *what)
        elif event != 'solved' and event != 'statistic':
            self.log.append((event,) + what)

    def take(self):
        r, self.log = self.log, []
        return r


def session(run, rng, cls, par=False, shm=False):
    name = cls.__name__
    cpp, opts, functors = SOLVERS[cls]
    uncertain = not getattr(HUB, cpp).deterministic
    factory, sts, goals, start = make_domain(rng, uncertain, shm)
    local = factory()
    watch = Watch(run, cls, shm)
    kls = getattr(HUB, cpp)
    kls.observer = staticmethod(watch)
    kw, want = {}, {}
    for o, (there, draw, default) in opts.items():
        if rng.random() < .6:
            kw[o] = want[there] = draw(rng)
            run.hit('options')
        else:
            want[there] = default
            run.hit('default_options')
    if cls is UCT:
        want['uct_mode'] = True
        for o, (there, _, default) in MCF.items():
            want.setdefault(there, default)
    # ---- the user's functors: a table of numbers, plus what only a working domain can tell
    tab = {f: {s: rng.choice([rng.randint(0, 50), rng.randint(0, 200) / 4]) for s in sts} for f in functors}
    given = {}
    for f, optional in functors.items():
        if f == 'termination_checker':
            given[f] = lambda d, s: bool(d.is_goal(s))
        elif f == 'custom_policy':
            given[f] = lambda d, s, t=tab[f]: ('act', t[s], len(d.get_applicable_actions(s).get_elements()))
        elif cpp == '_MCTSSolver_':
            given[f] = lambda d, s, t=tab[f]: (t[s], int(d.is_goal(s)) + 5)
        elif shm:
            given[f] = lambda d, s, t=tab[f]: float(t[s]) + len(d.get_applicable_actions(s).get_elements())
        elif f == 'state_features':
            given[f] = lambda d, s, t=tab[f]: (t[s], bool(d.is_goal(s)), 'x')
        else:
            given[f] = lambda d, s, t=tab[f]: t[s] + len(d.get_applicable_actions(s).get_elements())
        if optional and rng.random() < .25:
            given[f] = None
        elif optional is None and rng.random() < .25:      # a mandatory argument that may be None
            given[f] = None
            kw[f] = None
    kw.update({f: g for f, g in given.items() if g is not None or rng.random() < .5})
    ordering = None
    if cls is IW:
        if flag(rng):
            c = rng.choice([1, -1])
            ordering = lambda *a: c * sum((k + 1) * x for k, x in enumerate(a)) > 0      # noqa: E731
            kw['node_ordering'] = ordering
    cont = True
    if cls in CONTINUOUS:
        if rng.random() < .6:
            kw['continuous_planning'] = cont = flag(rng)
    else:
        cont = False
    if par:
        kw['parallel'] = True
        if shm:
            kw['shared_memory_proxy'] = Proxy()
    elif rng.random() < .3:
        kw['parallel'] = False
    want['parallel'] = par
    use_with = flag(rng)
    late = cls in (Astar, LRTDP) and rng.random() < .4
    if not late:
        kw['domain_factory'] = factory
    else:
        run.hit('factory_later')
    calls = []

    def probe(solver, s, i):
        """the functors seen by the compiled solver mean the user's functions"""
        for f, g in given.items():
            if cpp == '_MCTSSolver_' and g is None:
                run.check(solver.kw.get(f) is None, f'{name}:functor-invented:{f}', '')
                continue
            got = solver.functor(f, s, i)
            calls.append(f)
            run.hit('functor_calls')
            wantv = g(local, s) if g is not None else 0
            run.check(got == wantv and type(got) in (type(wantv), float, int, bool), f'{name}:functor:{f}' + (':parallel' if par else ''), lambda: f'got {got!r} want {wantv!r} in {s}')
        if 'goal_checker' in solver.kw:
            g = solver.functor('goal_checker', s, i)
            run.check(bool(g) == (s in goals), f'{name}:goal_checker', lambda: f'{s} {g}')

    watch.probe = probe
    solver = cls(**kw)
    run.check(cls.check_domain(local), f'{name}:domain-refused', '', abort=True)
    run.hit('constructed')
    cm = solver if use_with else contextlib.nullcontext()
    if not use_with:
        run.hit('without_with')
    try:
        with hush(), cm:
            type(local).solve_with(solver, factory)
            ev = watch.take()
            run.check([e[0] for e in ev[:2]] == ['init', 'clear'], f'{name}:not-cleared-before-solving', lambda: f'{ev}', abort=True)
            eng = watch.solvers[-1]
            got = {k: v for k, v in eng.kw.items() if k in want}
            full = {k: want[k] for k in want if k in hubcpp.bindings(cpp)[0]}
            run.check(set(want) <= set(hubcpp.bindings(cpp)[0]), f'{name}:binding-misses-option', lambda: f'{set(want) - set(hubcpp.bindings(cpp)[0])}')
            for k, v in full.items():
                run.check(k in got and got[k] == v and (isinstance(got[k], bool) == isinstance(v, bool)), f'{name}:option:{k}', lambda: f'given {v!r} received {got.get(k, "nothing")!r}')
            if cls is IW:
                g = eng.kw.get('node_ordering')
                if ordering is None:
                    run.check(g is None, 'IW:ordering-invented', '')
                else:
                    a = [rng.uniform(-5, 5), rng.randint(-5, 5), rng.randint(-5, 5), rng.uniform(-5, 5), rng.randint(-5, 5), rng.randint(-5, 5)]
                    run.hit('orderings')
                    run.check(callable(g) and bool(g(*a)) == ordering(*a), 'IW:ordering', lambda: f'{a}')
            check_domain(run, name, eng, local, par)
            history(run, rng, name, cls, solver, eng, watch, local, sts, goals, start, cont, factory)
            if not use_with:
                if rng.random() < .5:
                    solver.close()
                else:
                    solver._cleanup()
    finally:
        for s in watch.solvers:
            s.shut()
        watch.run = Null()
    if par:
        run.hit('parallel_closed')
        left = [p for p in watch.pids if alive(p)]
        run.check(watch.pids and not left, f'{name}:processes-left', lambda: f'{left}')
        for p in left:
            with contextlib.suppress(OSError):
                os.kill(p, 9)
    run.case((name, sorted((k, repr(v)) for k, v in want.items()), len(sts), par, shm, use_with), bool(calls))


class Null:
    def hit(self, *a): pass
    def check(self, *a, **k): return True


def alive(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rsplit(')', 1)[1].split()[0] != 'Z'
    except OSError:
        return False


def check_domain(run, name, eng, local, par):
    d = eng.domain
    if par:
        run.check(d.get_parallel_capacity() == len(d.get_ipc_connections()) and all(c for c in d.get_ipc_connections()), f'{name}:parallel:no-notification', '')
    else:
        run.check(type(d) is type(local) and d.edges == local.edges and d.start == local.start, f'{name}:other-domain', lambda: f'{type(d)}', abort=True)


def history(run, rng, name, cls, solver, eng, watch, local, sts, goals, start, cont, factory):
    """a random sequence of what users do with a solver; the calls received by the compiled solver are fully determined"""
    def act(s):
        before = s in eng.plan
        with hush():
            a = solver.get_next_action(s)
        ev = watch.take()
        run.hit('actions')
        solves = [e for e in ev if e[0] == 'solve']
        nexts = [e for e in ev if e[0] == 'next']
        need = cont or not before
        run.hit('replans' if need else 'no_replan')
        run.hit('solve_calls', len(solves))
        run.check(len(solves) == int(need) and all(e[1] == s for e in solves), f'{name}:planning' + (':useless' if not need else ':missing' if not solves else ''), lambda: f'{ev} continuous {cont} defined {before}')
        run.check(nexts and all(e[1] == s for e in nexts) and ev[-1][0] == 'next', f'{name}:action-not-asked', lambda: f'{ev}', abort=True)
        run.check(not [e for e in ev if e[0] in ('clear', 'init')], f'{name}:plan-forgotten', lambda: f'{ev}')
        r = nexts[-1][2]
        if r is None:
            run.hit('no_action')
            if cls in CONTINUOUS:
                run.hit('random_actions')
                run.check(local.get_action_space().contains(a), f'{name}:random-action', lambda: f'{a!r}')
            else:
                run.hit('none_actions')
                run.check(a is None, f'{name}:action', lambda: f'{a!r} although there is none')
        else:
            run.check(a == r and type(a) is type(r), f'{name}:action', lambda: f'got {a!r} want {r!r}')
            run.check(solver.sample_action(s) == eng.plan[s][0], f'{name}:sampled-action', '')
            watch.take()
        return a

    def util(s):
        with hush():
            u = solver.get_utility(s)
        ev = watch.take()
        run.hit('utilities')
        run.check([e for e in ev if e[0] == 'utility' and e[1] == s] and u == [e for e in ev if e[0] == 'utility'][-1][2] and not [e for e in ev if e[0] in ('clear', 'init', 'solve')], f'{name}:utility', lambda: f'{u} {ev}')

    def stats():
        for n in STATS[cls]:
            seen = []
            old = watch.probe
            r = getattr(solver, n)()
            run.hit('statistics')
            w = getattr(eng, n)()
            run.check(r == w and type(r) is type(w), f'{name}:statistic:{n}', lambda: f'got {r!r} want {w!r}')
            watch.probe = old
            del seen
        watch.take()

    def defined(s):
        run.hit('policy_defined')
        with hush():
            r = solver.is_policy_defined_for(s)
        ev = watch.take()
        run.check(bool(r) == (s in eng.plan), f'{name}:policy-defined', lambda: f'{s} {r}')
        run.check(not [e for e in ev if e[0] in ('clear', 'init', 'solve')], f'{name}:policy-defined-plans', lambda: f'{ev}')

    def reset():
        run.hit('resets')
        solver.reset()
        ev = [e[0] for e in watch.take()]
        run.check(('clear' in ev) == (cls in RESETS) and 'solve' not in ev and 'init' not in ev, f'{name}:reset', lambda: f'{ev}')

    def episode():
        s = start
        for _ in range(12):
            if s in goals:
                run.hit('goals_reached')
                break
            a = act(s)
            if a is None or a not in dict((x[0], 0) for x in local.edges[s]):
                break
            s = local.get_next_state(s, a) if isinstance(local, GraphDom) else local.get_next_state_distribution(s, a).sample()
        if s not in goals and isinstance(local, GraphDom) and not cont and eng.plan.get(start) and len(sts) <= 12 and cls is not BFWS:
            run.check(False, f'{name}:episode-not-at-goal', lambda: f'{s}')

    def from_(s):
        with hush():
            solver.solve_from(s)
        ev = watch.take()
        run.hit('solve_calls')
        run.check([e for e in ev if e[0] == 'solve'] == [('solve', s)] and not [e for e in ev if e[0] in ('clear', 'init')], f'{name}:solve-from', lambda: f'{ev}')

    def again():
        """a second call to solve starts from a cleared solver"""
        nonlocal eng
        with hush():
            type(local).solve_with(solver, factory)
        eng = watch.solvers[-1]
        ev = watch.take()
        run.check('clear' in [e[0] for e in ev] and not eng.plan, f'{name}:solved-again-not-cleared', lambda: f'{ev}')

    def mode():
        eng.solved, eng.plan = set(eng.solved), dict(eng.plan)
        s = rng.choice(sts)
        eng.plan.pop(s, None)                    # as a solver that lost this state
        act(s)

    episode()
    ops = [lambda: act(rng.choice(sts)), lambda: act(start), lambda: util(rng.choice(sts)), stats, lambda: defined(rng.choice(sts)), reset, episode, lambda: from_(rng.choice(sts)), mode]
    if not eng.par:
        ops.append(again)
    for _ in range(rng.randint(3, 5) if eng.par else rng.randint(4, 14)):
        rng.choice(ops)()


def g_sequential(run, rng):
    session(run, rng, rng.choice(list(SOLVERS)))


# the notification library does not survive a fork: every parallel session has its own interpreter
def one_parallel(run, rng):
    session(run, rng, rng.choice(list(SOLVERS)), True)


def one_shm(run, rng):
    session(run, rng, rng.choice([Astar, BFWS, IW, RIW]), True, True)


def g_parallel(run, rng):
    run.isolated('vk.checks.c35', 'one_parallel', rng.getrandbits(40))


def g_shm(run, rng):
    run.isolated('vk.checks.c35', 'one_shm', rng.getrandbits(40))


GROUPS = [('sequential', g_sequential, 1600, 12000), ('parallel', g_parallel, 48, 300, None), ('shm', g_shm, 16, 100, None)]

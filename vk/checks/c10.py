"""C10 online decision makers: SimpleGreedy picks the best expected one-step reward; POMCP decides from beliefs consistent with what was observed."""
from skdecide import (Domain, DiscreteDistribution, SingleValueDistribution, ImplicitSpace, TransitionValue, Memory)
from skdecide.domains import POMDPDomain, GoalPOMDPDomain
from skdecide.builders.domain import *
from skdecide.hub.solver.simple_greedy import SimpleGreedy
from skdecide.hub.solver.pomcp import POMCP
from skdecide.hub.space.gym import ListSpace

RULE = 'random decision processes at several modelling levels for the greedy policy; random goal POMDPs with hidden components for POMCP, executed for a few steps; non-trivial = at least 2 applicable actions'
REQUIRED = {'greedy_decisions': 1000, 'greedy_next_dependent': 300, 'greedy_next_independent': 300, 'pomcp_decisions': 100, 'pomcp_simulated': 5000, 'pomcp_clear_best': 30, 'pomcp_second_step': 50}
ASSUMPTIONS = ['POMCP: action quality is only judged where the expected costs differ by a wide margin; particle depletion is avoided by construction']


def mk_greedy(rng):
    conc = rng.choice([Sequential, Parallel])
    mem = rng.choice([History, Markovian])
    agent = SingleAgent
    trans = rng.choice([EnumerableTransitions, DeterministicTransitions])
    dep = rng.random() < .5
    n = rng.randint(1, 6)
    S = list(range(n))
    A = [f'a{i}' for i in range(rng.randint(1, 4))]
    app = {s: rng.sample(A, rng.randint(1, len(A))) for s in S}
    P, R = {}, {}
    top = rng.choice([20, 20, 3, 1])
    for s in S:
        for a in A:
            k = 1 if trans is DeterministicTransitions else rng.randint(1, 4)
            succ = rng.sample(S, min(k, n))
            w = [rng.choice([1, 2, 4, 8]) for _ in succ]
            if rng.random() < .15 and len(succ) > 1:
                w[0] = 0
            P[s, a] = [(t, x / sum(w)) for t, x in zip(succ, w)]
            r = rng.randint(-top, top)
            R[s, a] = {t: (rng.randint(-top, top) if dep else r) for t in S}
    last = lambda m: m[-1] if mem is History else m
    one = lambda a: (a[0] if conc is Parallel else a)

    class D(Domain, agent, conc, trans, Actions, mem, FullyObservable, Rewards):
        T_state = T_observation = T_event = object
        T_value = float
        def _get_action_space_(self): return ListSpace(A)
        def _get_applicable_actions_from(self, m): return ListSpace(app[last(m)])
        def _get_next_state_distribution(self, m, a): return DiscreteDistribution(P[last(m), one(a)])
        def _get_next_state(self, m, a): return P[last(m), one(a)][0][0]
        def _is_transition_value_dependent_on_next_state_(self): return dep
        def _get_transition_value(self, m, a, t=None):
            if t is None and dep:
                raise AssertionError('next state needed')
            return TransitionValue(reward=R[last(m), one(a)][t if t is not None else 0])
        def _is_terminal(self, s): return False
        def _get_observation_space_(self): return ListSpace(S)
    if trans is DeterministicTransitions:
        D._get_next_state_distribution = DeterministicTransitions._get_next_state_distribution
    return D, S, app, P, R, dep, conc


def greedy(run, rng):
    D, S, app, P, R, dep, conc = mk_greedy(rng)
    run.check(SimpleGreedy.check_domain(D()), 'greedy:compatible')
    solver = D.solve_with(SimpleGreedy(), D)
    for s in S:
        a = solver.sample_action(s) if rng.random() < .5 else solver.get_next_action(s)
        if conc is Parallel:
            run.check(isinstance(a, list) and len(a) == 1, 'greedy:level', a, abort=True)
            a = a[0]
        ex = {b: sum(p * R[s, b][t] for t, p in P[s, b]) for b in app[s]}
        best = max(ex.values())
        run.check(a in app[s], 'greedy:inapplicable', (a, app[s]), abort=True)
        run.check(ex[a] >= best - 1e-9, 'greedy:not-best', lambda: f'state {s} chose {a} {ex}')
        run.check(solver.is_policy_defined_for(s), 'greedy:defined')
        run.hit('greedy_decisions')
        run.hit('greedy_next_dependent' if dep else 'greedy_next_independent')
        run.case((s, app[s], ex), len(app[s]) > 1)


def mk_pomdp(rng):
    """state = (hidden component h, position x); position moves by actions, h never changes; one action per h is the good one"""
    H = rng.randint(1, 3)
    X = rng.randint(2, 5)
    A = ['l', 'r'] + [f'g{i}' for i in range(H)]
    good = list(range(H))
    rng.shuffle(good)
    obs_kind = rng.choice(['position', 'position', 'both', 'parity'])
    slip = rng.choice([0, .25])
    mv = {'l': -1, 'r': 1}
    spec = dict(H=H, X=X, good=tuple(good), obs=obs_kind, slip=slip)

    def nxt(s, a):
        h, x = s
        if x == 'G':
            return [(s, 1.)]
        if a[0] == 'g':
            return [((h, 'G'), 1.)] if a == f'g{good[h]}' else [((h, x), 1.)]
        y = (x + mv[a]) % X
        if not slip or y == x:
            return [((h, y), 1.)]
        return [((h, y), 1 - slip), ((h, x), slip)]

    def cost(s, a, t):
        if a[0] == 'g':
            return 1. if a == f'g{good[s[0]]}' else 8.
        return 1.

    def obs(s, a):
        """deterministic function of the reached state and the action"""
        h, x = s
        if x == 'G':
            return 'goal'
        if obs_kind == 'both':
            return (h, x)
        if obs_kind == 'parity':
            return ('p', x % 2, a is None)
        return ('x', x, a)
    return A, nxt, cost, obs, spec


def pomcp(run, rng):
    A, nxt, cost, obs, spec = mk_pomdp(rng)
    H, X = spec['H'], spec['X']
    x0 = 0
    sim = []

    class D(GoalPOMDPDomain):
        T_state = T_observation = T_event = T_info = object
        T_value = float
        def _get_initial_state_distribution_(self): return DiscreteDistribution([((h, x0), 1.) for h in range(H)])
        def _get_next_state_distribution(self, m, a):
            sim.append((m, a))
            return DiscreteDistribution(nxt(m, a))
        def _get_transition_value(self, m, a, t=None): return TransitionValue(cost=cost(m, a, t))
        def _is_terminal(self, s): return s[1] == 'G'
        def _get_goals_(self): return ImplicitSpace(lambda o: o == 'goal')
        def _get_action_space_(self): return ListSpace(A)
        def _get_applicable_actions_from(self, m): return ListSpace(A)
        def _get_observation_distribution(self, s, a=None): return SingleValueDistribution(obs(s, a))
        def _get_observation_space_(self): return ImplicitSpace(lambda o: True)

    iters = rng.choice([200, 400, 600])
    run.check(POMCP.check_domain(D()), 'pomcp:compatible')
    solver = D.solve_with(POMCP(max_iterations=iters, max_depth=rng.choice([5, 10]), n_samples=60), D)
    for ep in range(rng.choice([1, 2])):
        solver.reset()
        env = D()
        o = env.reset()
        belief = {(h, x0): 1. for h in range(H)}
        belief = {s: p for s, p in belief.items() if obs(s, None) == o}
        last, prev = None, {}
        for step in range(rng.randint(1, 3)):
            if last is not None:
                nb, prev = {}, belief
                for s, p in belief.items():
                    for t, q in nxt(s, last):
                        if q > 0 and obs(t, last) == o:
                            nb[t] = nb.get(t, 0) + p * q
                belief = nb
                run.hit('pomcp_second_step')
            del sim[:]
            a = solver.sample_action(o)
            run.hit('pomcp_decisions')
            run.check(a in A, 'pomcp:inapplicable', a, abort=True)
            hs = {s[0] for s in belief}
            run.hit('pomcp_simulated', len(sim))
            for s, b in sim:
                if b not in A:
                    run.fail('pomcp:simulated-action', b, abort=True)
                if s[0] not in hs and not (b == last and s in prev):      # the belief update itself simulates the previous belief
                    run.fail('pomcp:inconsistent-belief', f'{s} simulated although only {belief} is possible; {spec}', abort=True)
            # belief roots: the first simulated states (before any modelled effect) must be possible
            if last is None:
                run.check(sim[0][0] in belief, 'pomcp:root-belief', lambda: (sim[0], belief))
            if len(hs) == 1:
                # the hidden component is known: the good action ends at cost 1, anything else costs at least 2
                run.hit('pomcp_clear_best')
                h = next(iter(hs))
                run.check(a == f'g{spec["good"][h]}', 'pomcp:clearly-worse-action', lambda: (a, belief, spec, iters))
            out = env.step(a)
            o = out.observation
            last = a
            run.case((spec, step, a), len(A) > 1)
            if out.termination or o == 'goal':
                break


GROUPS = [('greedy', greedy, 700, 8000), ('pomcp', pomcp, 250, 1500, None)]

"""C09 LRTAstar: learned policies executed on the domain against shortest-path oracles."""
from vk.graphs import *
from skdecide.hub.solver.lrtastar import LRTAstar

RULE = 'random graphs with admissible heuristics; acyclic ones for optimality, cyclic ones for validity and completeness, tiny depth limits; non-trivial = plan of at least 2 actions'
REQUIRED = {'optimal_plans': 200, 'valid_plans': 300, 'unsolvable': 50, 'goal_at_start': 20, 'second_solve': 50, 'cut_trials': 20}
ASSUMPTIONS = ['optimality is checked on acyclic graphs (see the known finding for cyclic ones)']


def follow(run, dom, s, solver, n):
    cost, seq = 0, [s]
    while s not in dom.goals:
        if not solver.is_policy_defined_for(s):
            return None
        a = solver.get_next_action(s)
        if a is None:
            return None
        if not run.check(a in dom.map[s], 'inapplicable-action', lambda: (s, a)):
            return None
        s, c = dom.map[s][a]
        cost += c
        seq.append(s)
        if not run.check(len(seq) <= n + 1, 'plan-loops', lambda: seq):
            return None
    return seq, cost


def learn(run, rng, solver, dom, st):
    if rng.random() < .5:
        solver.solve(lambda: dom)
    else:
        type(dom).solve_with(solver, lambda: dom)
    return follow(run, dom, st, solver, len(dom.edges))


def judge(run, solver, dom, st, r, acyclic, hd):
    opt = cost_to_go(dom.edges, dom.goals)[st]
    D = lambda: describe(dom.edges, st, dom.goals)
    if opt == INF:
        run.hit('unsolvable')
        run.check(r is None, 'plan-for-unsolvable', D)
        return 0
    if not run.check(r is not None, 'no-plan-reaching-goal', D):
        return 0
    seq, cost = r
    if len(seq) == 1:
        run.hit('goal_at_start')
    run.hit('valid_plans')
    for s in seq:
        run.check(solver.is_policy_defined_for(s), 'policy-undefined-on-plan', lambda: (s, seq))
    run.check(cost >= opt, 'oracle')
    u = solver.get_utility(st)
    if acyclic:
        run.hit('optimal_plans')
        run.check(cost == opt, 'suboptimal', lambda: f'cost {cost} optimal {opt} h={hd} {D()}')
        run.check(u == opt, 'start-utility', lambda: (u, opt, D()))
        rest = cost
        for k, s in enumerate(seq[:-1]):
            run.check(solver.get_utility(s) <= rest, 'utility-on-plan', lambda: (s, solver.get_utility(s), rest))
            rest -= dom.map[s][solver.get_next_action(s)][1]
    return len(seq) - 1


def trial(run, rng):
    acyclic = rng.random() < .6
    edges, start, goals = random_graph(rng, acyclic=acyclic)
    name, hd = heuristic(rng, edges, goals, rng.random() < .8)
    explicit = rng.random() < .4
    st = rng.choice(list(edges)) if explicit else start
    kw = {} if hd is None else {'heuristic': lambda d, s: hd[s]}
    solver = LRTAstar(from_state=st if explicit else None, max_iter=600, **kw)
    dom = GraphDom(edges, start, goals)
    k = judge(run, solver, dom, st, learn(run, rng, solver, dom, st), acyclic, hd)
    if hd is None and not explicit and rng.random() < .5:
        e2, s2, g2 = random_graph(rng, acyclic=acyclic)
        d2 = GraphDom(e2, s2, g2)
        judge(run, solver, d2, s2, learn(run, rng, solver, d2, s2), acyclic, None)
        run.hit('second_solve')
    run.case((describe(edges, st, goals), name), k > 1)


def cut(run, rng):
    """trials longer than the depth limit are cut: a plan known to reach a goal is never given up for a cut one"""
    edges, start, goals = random_graph(rng, n=rng.randint(5, 14), goals=rng.choice([1, 2]))
    run.require(start not in goals)
    name, hd = heuristic(rng, edges, goals)
    depth = rng.randint(1, 5)
    log = []
    dom = GraphDom(edges, start, goals, log)
    kw = {} if hd is None else {'heuristic': lambda d, s: hd[s]}
    solver = LRTAstar(max_depth=depth, max_iter=rng.choice([0, 1, 3, 40, 300]), **kw)
    r = learn(run, rng, solver, dom, start)
    reached = any(e[0] == 'goal' for e in log)
    if reached:
        run.hit('cut_trials')
        run.check(r is not None, 'known-plan-given-up', lambda: describe(edges, start, goals) + f' depth {depth} h {hd}')
    if r is not None:
        run.check(r[1] >= cost_to_go(edges, goals)[start], 'oracle')
    run.case((describe(edges, start, goals), depth), reached)


KNOWN = [  # graphs on which the solver converges to a suboptimal plan: (edges, goal, optimal cost)
    ({0: [(0, 5, 4), (1, 5, 2), (2, 4, 2), (3, 5, 7)], 1: [(0, 2, 2), (1, 3, 2), (2, 1, 4), (3, 4, 1)], 2: [(0, 1, 2)], 3: [(0, 4, 9), (1, 2, 3)], 4: [(0, 6, 7), (1, 1, 4), (2, 0, 6), (3, 1, 4)], 5: [(0, 6, 5), (1, 5, 5), (2, 1, 9), (3, 6, 8)], 6: [(0, 5, 9), (1, 2, 1)]}, 3, 8),
    ({0: [(0, 5, 5), (1, 0, 9), (2, 6, 4), (3, 2, 9)], 1: [(0, 1, 7), (1, 1, 1), (2, 2, 5)], 2: [(0, 4, 2), (1, 1, 8), (2, 1, 1), (3, 5, 2)], 3: [(0, 6, 2), (1, 3, 9)], 4: [(0, 3, 7), (1, 5, 4)], 5: [(0, 4, 1)], 6: [(0, 1, 7)]}, 3, 13),
    ({0: [(0, 6, 3), (1, 1, 1)], 1: [(0, 0, 3), (1, 0, 5), (2, 5, 6), (3, 5, 6)], 2: [(0, 3, 3), (1, 4, 4)], 3: [(0, 6, 8), (1, 2, 9)], 4: [(0, 4, 7), (1, 0, 7), (2, 2, 3), (3, 5, 3)], 5: [(0, 3, 4)], 6: [(0, 3, 4), (1, 5, 5)]}, 4, 20),
]


def known(run, rng):
    for k, (edges, goal, opt) in enumerate(KNOWN):
        dom = GraphDom(edges, 0, {goal})
        solver = LRTAstar()
        solver.solve(lambda: dom)
        r = follow(run, dom, 0, solver, len(edges))
        run.check(r is not None and cost_to_go(edges, {goal})[0] == opt, 'known-graph')
        run.check(r[1] == opt, f'suboptimal:cyclic-graph-{k}:cost-{r[1]:g}', lambda: f'cost {r[1]} optimal {opt}')


GROUPS = [('trial', trial, 2500, 30000), ('cut', cut, 800, 8000), ('known', known, 1, 1)]

"""C08 LazyAstar: plans executed on the domain and compared with an independent shortest-path oracle."""
from vk.graphs import *
from skdecide.hub.solver.lazy_astar import LazyAstar

RULE = 'random graphs (cycles, zero costs, parallel edges, dead ends, several or no goals, unordered state objects) with consistent heuristics, weights and start states; non-trivial = plan of at least 2 actions'
REQUIRED = {'optimal_plans': 300, 'unsolvable': 50, 'weighted_plans': 100, 'plan_steps': 1000, 'goal_at_start': 20, 'second_solve': 50, 'inconsistent_plans': 50}
ASSUMPTIONS = ['optimality is claimed for consistent heuristics (the solver documents no re-expansion); for other heuristics the plan must only be valid']


def follow(run, dom, s, solver, n, mech):
    """execute the policy on the model; returns (states, cost) or None when it stops before a goal"""
    cost, seq = 0, [s]
    while s not in dom.goals:
        if not run.check(solver.is_policy_defined_for(s), mech + ':policy-undefined-on-plan', lambda: (seq,)):
            return None
        a = solver.get_next_action(s)
        ok = a in dom.map[s]
        run.check(ok, mech + ':inapplicable-action', lambda: (s, a))
        if not ok:
            return None
        t, c = dom.map[s][a]
        cost += c
        s = t
        seq.append(s)
        run.hit('plan_steps')
        if not run.check(len(seq) <= n + 1, mech + ':plan-loops', lambda: seq):
            return None
    return seq, cost


def one(run, rng, solver, edges, start, goals, hd, weight, consistent, tag, initial=None):
    dom = GraphDom(edges, start if initial is None else initial, goals)      # `initial` differs from `start` when the solver is given a start
    ctg = cost_to_go(edges, goals)
    opt = ctg[start]
    if tag == 'direct':
        solver.solve(lambda: dom)
    else:
        GraphDom.solve_with(solver, lambda: dom)
    if opt == INF:
        run.hit('unsolvable')
        run.check(not solver.is_policy_defined_for(start), 'plan-for-unsolvable', lambda: describe(edges, start, goals))
        return 0
    if start in goals:
        run.hit('goal_at_start')
    r = follow(run, dom, start, solver, len(edges), 'astar')
    if r is None:
        run.fail('no-plan-reaching-goal', describe(edges, start, goals))
        return 0
    seq, cost = r
    if consistent:
        if weight <= 1:
            run.check(cost == opt, 'suboptimal', lambda: f'cost {cost} optimal {opt} weight {weight} {describe(edges, start, goals)} h={hd}')
            run.hit('optimal_plans')
        else:
            run.check(cost <= weight * opt + 1e-9, 'beyond-weighted-bound', lambda: f'cost {cost} optimal {opt} weight {weight} {describe(edges, start, goals)}')
            run.hit('weighted_plans')
    else:
        run.hit('inconsistent_plans')
    # utilities along the plan are the remaining costs of the plan
    rest = cost
    for k, s in enumerate(seq):
        u = solver.get_utility(s)
        run.check(u == rest, 'utility-on-plan', lambda: f'{s}: {u} instead of {rest}')
        if k + 1 < len(seq):
            rest -= dom.map[s][solver.get_next_action(s)][1]
    off = [s for s in edges if s not in seq]
    for s in off:
        run.check(solver.get_utility(s) == (hd[s] if hd else 0), 'utility-off-plan', lambda: (s, solver.get_utility(s), hd))
        run.check(not solver.is_policy_defined_for(s), 'policy-off-plan', s)
    return len(seq) - 1


def astar(run, rng):
    edges, start, goals = random_graph(rng)
    consistent = rng.random() < .85
    name, hd = heuristic(rng, edges, goals, consistent)
    weight = rng.choice([1., 1., 1., 0., .5, 1.5, 3.]) if consistent else 1.
    if name == 'random':
        consistent = False
    explicit = rng.random() < .4
    st = rng.choice(list(edges)) if explicit else start
    kw = {}
    if hd is not None:
        kw['heuristic'] = lambda d, s: hd[s]
    solver = LazyAstar(from_state=st if explicit else None, weight=weight, **kw)
    k = one(run, rng, solver, edges, st, goals, hd, weight, consistent, rng.choice(['direct', 'with']), start)
    if hd is None and not explicit and rng.random() < .5:
        # the same solver object solves another problem of the same domain class
        e2, s2, g2 = random_graph(rng)
        one(run, rng, solver, e2, s2, g2, None, weight, consistent, 'direct')
        run.hit('second_solve')
    run.case((describe(edges, st, goals), name, weight), k > 1)


GROUPS = [('astar', astar, 3000, 40000)]

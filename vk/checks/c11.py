"""C11 graph exploration: explored graphs are exactly the domain's transition system, and the resulting graph domains behave like the original."""
import contextlib
import io
import types
from itertools import count

from skdecide import DiscreteDistribution, TransitionValue, ImplicitSpace
from skdecide.domains import GoalMDPDomain
from skdecide.hub.solver.graph_explorer.FullSpaceExploration import FullSpaceExploration, reachable_states
from skdecide.hub.solver.graph_explorer.DFSExploration import DFSExploration
from skdecide.hub.solver.graph_explorer.DFS_Uncertain_Exploration import DFSExploration as UDFS
from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain, GraphDomainUncertain
from vk.graphs import *
from vk.graphs import _Empty

RULE = 'random deterministic graphs and goal MDPs explored with and without limits from several start states; non-trivial = at least 3 reachable states'
REQUIRED = {'full': 150, 'dfs': 150, 'uncertain': 200, 'limited': 100, 'edges': 2000, 'steps': 500, 'known_successors': 200, 'merged': 30, 'merged-parts': 30, 'below-limits': 30, 'reachable': 200}
ASSUMPTIONS = ['goal states (and terminal ones of MDPs) are not expanded']


def reach(edges, s0, goals):
    """states discovered and transitions when goals are not expanded (the start always is)"""
    seen, todo, trans = {s0}, [s0], {}
    while todo:
        s = todo.pop()
        for a, t, c in edges[s]:
            trans.setdefault(s, {})[a] = (t, c)
            if t not in seen:
                seen.add(t)
                if t not in goals:
                    todo.append(t)
    return seen, trans


def check_graph(run, g, edges, start, goals, kind, exact):
    nodes, trans = reach(edges, start, goals)
    got = g.next_state_map
    D = lambda: describe(edges, start, goals)
    run.check(set(got) <= nodes if not exact else set(got) == nodes, kind + ':states', lambda: (set(map(str, got)), set(map(str, nodes)), D()))
    for s in got:
        want = trans.get(s, {})
        if exact or got[s]:
            if not run.check(set(got[s]) == set(want), kind + ':actions', lambda: (s, got[s], want, D())):
                continue
        for a in got[s]:
            run.hit('edges')
            run.check(got[s][a] == want[a][0], kind + ':successor', lambda: (s, a))
            run.check(got[s][a] in got, kind + ':dangling', lambda: (s, a))
            run.check(g.next_state_attributes[s][a]['cost'] == want[a][1], kind + ':cost', lambda: (s, a, g.next_state_attributes[s][a], want[a]))
    return nodes


def as_domain(run, rng, g, edges, start, goals):
    """walk in the explored graph as a domain, in lock-step with the original"""
    g.set_nodes_target(set(goals))
    for s in g.next_state_map:
        run.check(set(g.get_applicable_actions(s).get_elements()) == set(g.next_state_map[s]), 'domain:applicable', s)
        run.check(bool(g.is_goal(s)) == (s in goals), 'domain:goal', s)
        run.check(bool(g.is_terminal(s)) == (s in goals), 'domain:terminal', s)
        run.check(bool(g.get_goals().contains(s)) == (s in goals), 'domain:goals', s)
    s = start
    g.set_memory(s)
    table = {x: {a: (t, c) for a, t, c in es} for x, es in edges.items()}
    for _ in range(6):
        acts = g.get_applicable_actions(s).get_elements()
        if not acts:
            break
        a = rng.choice(list(acts))
        run.check(g.is_applicable_action(a) and not g.is_applicable_action('no such action'), 'domain:is_applicable')
        t, c = table[s][a]
        run.check(g.get_next_state(s, a) == t and g.get_transition_value(s, a, t).cost == c, 'domain:transition', lambda: (s, a))
        o = g.step(a)
        run.check(o.observation == t and o.value.cost == c and o.termination == (t in goals), 'domain:step', lambda: (s, a, o))
        run.hit('steps')
        s = t


def det(run, rng):
    edges, start, goals = random_graph(rng)
    kind = rng.choice(['full', 'dfs'])
    lim = {}
    if rng.random() < .4:
        for k in ('max_edges', 'max_nodes', 'max_path'):
            if rng.random() < .6:
                lim[k] = rng.randint(0, 8)
    dom = GraphDom(edges, start, goals)
    st = rng.choice(list(edges)) if rng.random() < .4 else None
    cls = FullSpaceExploration if kind == 'full' else DFSExploration
    ex = cls(dom, **lim)
    if kind == 'dfs':
        g = ex.build_graph_domain(init_state=st, verbose=rng.random() < .5)
    else:
        g = ex.build_graph_domain(init_state=st)
    s0 = start if st is None else st
    nodes = check_graph(run, g, edges, s0, goals, kind, not lim)
    if lim:
        run.hit('limited')
        if nodes & (goals - {s0}):
            run.check(set(g.next_state_map) & goals, kind + ':limit-before-any-goal', lambda: (lim, describe(edges, s0, goals)))
        # limits hold up to the states expanded last, once a goal is found, and never stop an exploration below them
        tr = [(s, t) for s in g.next_state_map for t in g.next_state_map[s].values()]
        deg = max(len(x) for x in edges.values())
        to_goal = [s for s, t in tr if t in goals]
        L = lambda: (lim, len(g.next_state_map), len(tr), len(to_goal), describe(edges, s0, goals))
        if len(tr) - deg > lim.get('max_edges', 10 ** 6) or len(g.next_state_map) - deg > lim.get('max_nodes', 10 ** 6):
            run.check(len(set(to_goal)) <= 1, kind + ':limit-not-respected', L)
        run.check(len(to_goal) <= lim.get('max_path', 10 ** 6) + deg, kind + ':path-limit', L)
        if len(tr) <= lim.get('max_edges', 10 ** 6) and len(g.next_state_map) <= lim.get('max_nodes', 10 ** 6) and len(to_goal) <= lim.get('max_path', 10 ** 6):
            check_graph(run, g, edges, s0, goals, kind + ':below-limits', True)
            run.hit('below-limits')
    run.hit(kind)
    as_domain(run, rng, g, edges, s0, goals)
    if not lim and rng.random() < .4:
        # merging the explorations from two start states gives the union
        s1 = rng.choice(list(edges))
        g2 = cls(GraphDom(edges, s1, goals)).build_graph_domain()
        n1, n2 = set(g.next_state_map), set(g2.next_state_map)
        pairs = {(s, a): t for m in (g, g2) for s in m.next_state_map for a, t in m.next_state_map[s].items()}
        m = g.merge(g2)
        run.check(set(m.next_state_map) == n1 | n2, 'merge:states')
        run.check({(s, a): t for s in m.next_state_map for a, t in m.next_state_map[s].items()} == pairs, 'merge:transitions')
        run.check(all(m.next_state_attributes[s][a]['cost'] == dict((b, c) for b, _, c in edges[s])[a] for s, a in pairs), 'merge:costs')
        run.hit('merged')
    if rng.random() < .4:
        # merging parts that know different actions of the same states
        full = {s: {a: (t, c) for a, t, c in es} for s, es in edges.items()}
        parts = []
        for _ in range(2):
            part = {s: {a: x for a, x in m.items() if rng.random() < .6} for s, m in full.items() if rng.random() < .8}
            parts.append((part, GraphDomain({s: {a: t for a, (t, _) in m.items()} for s, m in part.items()}, {s: {a: {'cost': c} for a, (_, c) in m.items()} for s, m in part.items()}, set(goals), 'cost')))
        m = parts[0][1].merge(parts[1][1])
        want = {s: {**parts[0][0].get(s, {}), **parts[1][0].get(s, {})} for s in list(parts[0][0]) + list(parts[1][0])}
        for s in want:
            run.check(set(m.get_applicable_actions(s).get_elements()) == set(want[s]), 'merge-parts:actions', lambda: (s, want[s]))
            for a, (t, c) in want[s].items():
                run.check(m.get_next_state(s, a) == t and m.get_transition_value(s, a, t).cost == c, 'merge-parts:transition', lambda: (s, a, t, c))
        run.check(set(m.next_state_map) == set(want) and all(m.is_goal(s) == (s in goals) for s in want), 'merge-parts:states')
        run.hit('merged-parts')
    run.case((kind, sorted(lim.items()), describe(edges, s0, goals)), len(nodes) > 2)


class Mdp(GoalMDPDomain):
    def __init__(self, P, start, goals, terms): self.P, self.start, self.goals, self.terms = P, start, goals, terms
    def _get_initial_state_distribution_(self): return DiscreteDistribution([(self.start, 1.)])
    def get_initial_state(self): return self.start
    def _get_next_state_distribution(self, m, a): return DiscreteDistribution([(t, p) for t, p, c in self.P[m][a]])
    def _get_transition_value(self, m, a, t=None): return TransitionValue(cost=next(c for x, p, c in self.P[m][a] if x == t))
    def _is_terminal(self, s): return s in self.terms
    def _get_goals_(self): return ImplicitSpace(lambda o: o in self.goals)
    def _get_applicable_actions_from(self, m): return ListSpace(list(self.P[m])) if self.P[m] else _Empty()
    def _get_action_space_(self): return ListSpace([0])
    def _get_observation_space_(self): return ImplicitSpace(lambda o: True)


def random_mdp(rng, n=None):
    n = n or rng.randint(1, 10)
    st = states(rng, n)
    P = {}
    for s in st:
        P[s] = {}
        for k in range(rng.randint(0, 3)):
            succ = rng.sample(st, min(n, rng.randint(1, 3)))
            w = [rng.choice([0, 1, 1, 2, 4]) for _ in succ]
            if sum(w) == 0:
                w[0] = 1
            P[s][f'a{k}'] = [(t, x / sum(w), rng.randint(0, 9)) for t, x in zip(succ, w)]
    goals = set(rng.sample(st, min(n, rng.choice([0, 1, 2]))))
    terms = {s for s in st if s in goals or not P[s] or rng.random() < .1}
    return P, rng.choice(st), goals, terms


def uncertain(run, rng):
    P, start, goals, terms = random_mdp(rng)
    dom = Mdp(P, start, goals, terms)
    lim = {}
    if rng.random() < .3:
        lim = {k: rng.randint(0, 8) for k in ('max_edges', 'max_nodes') if rng.random() < .7}
    c = count()
    kw = {} if rng.random() < .5 else {'score_function': lambda s: (-len(str(s)), next(c))}
    st = rng.choice(list(P)) if rng.random() < .4 else None
    g = UDFS(dom, **lim, **kw).build_graph_domain(init_state=st)
    s0 = start if st is None else st
    seen, todo, trans = {s0}, [s0], {}
    while todo:
        s = todo.pop()
        if s in goals or s in terms:
            continue
        for a, outs in P[s].items():
            trans.setdefault(s, {})[a] = {t: (p, k) for t, p, k in outs if p > 0}
            for t in trans[s][a]:
                if t in seen:
                    run.hit('known_successors')
                else:
                    seen.add(t)
                    todo.append(t)
    run.hit('uncertain')
    D = lambda: (P, s0, goals, terms, lim)
    if lim:
        run.hit('limited')
        run.check(set(g.state_terminal) <= seen and set(g.next_state_map) <= set(trans), 'uncertain:states', D)
        ne = sum(len(o) for m in g.next_state_map.values() for o in m.values())
        big = max([sum(len(o) for o in m.values()) for m in trans.values()] + [0])
        run.check(ne - big <= lim.get('max_edges', 10 ** 6), 'uncertain:edge-limit', D)
        run.check(len(g.state_terminal) - big <= max(1, lim.get('max_nodes', 10 ** 6)), 'uncertain:node-limit', D)
        if ne <= lim.get('max_edges', 10 ** 6) and len(seen) <= lim.get('max_nodes', 10 ** 6):
            run.check(ne == sum(len(o) for m in trans.values() for o in m.values()) and set(g.state_terminal) == seen, 'uncertain:stopped-below-limits', D)
    else:
        run.check(set(g.state_terminal) == seen == set(g.state_goal), 'uncertain:states', lambda: (set(g.state_terminal), seen, D()))
        run.check(set(g.next_state_map) == set(trans), 'uncertain:expanded', D)
    for s in g.next_state_map:
        run.check(g.next_state_map[s] == trans.get(s), 'uncertain:transitions', lambda: (s, g.next_state_map[s], trans.get(s), D()))
        for a in g.next_state_map[s]:
            run.hit('edges')
            dist = g.get_next_state_distribution(s, a)
            vals = {}
            for t, p in dist.get_values():
                vals[t] = vals.get(t, 0) + p
            run.check(vals == {t: p for t, (p, k) in trans[s][a].items()}, 'uncertain:distribution', lambda: (vals, trans[s][a]))
            for t, (p, k) in trans[s][a].items():
                run.check(g.get_transition_value(s, a, t).cost == k, 'uncertain:value')
            run.check(g.is_applicable_action(a, s) and not g.is_applicable_action('zzz', s), 'uncertain:is_applicable')
    for s in g.state_terminal:
        run.check(g.state_terminal[s] == (s in terms) and g.state_goal[s] == (s in goals), 'uncertain:flags', D)
        run.check(bool(g.is_goal(s)) == (s in goals), 'uncertain:is_goal')
        run.check(bool(g.is_terminal(s)) == (s in terms or not g.next_state_map.get(s)), 'uncertain:is_terminal')
    if not lim and s0 in trans:
        g.set_memory(s0)
        s = s0
        for _ in range(5):
            acts = g.get_applicable_actions(s).get_elements()
            if not acts:
                break
            a = rng.choice(list(acts))
            o = g.step(a)
            run.hit('steps')
            if not run.check(o.observation in trans[s][a], 'uncertain:step', lambda: (s, a, o)):
                break
            run.check(o.value.cost == trans[s][a][o.observation][1], 'uncertain:step-value')
            s = o.observation
    # the function alone: terminal states are not expanded
    with contextlib.redirect_stdout(io.StringIO()):
        got = reachable_states(types.SimpleNamespace(_domain=dom, domain=dom), s0)
    want, todo = {s0}, [s0]
    while todo:
        s = todo.pop()
        for t in {t for outs in P[s].values() for t, p, _ in outs if p > 0} - want if s not in terms else ():
            want.add(t)
            todo.append(t)
    run.check(set(got) == want, 'reachable-states', lambda: (got, want, D()))
    run.hit('reachable')
    for s in g.state_goal:
        run.check(bool(g.get_goals().contains(s)) == (s in goals), 'uncertain:goals', s)
    nx = g.to_networkx()
    ids = {d['state']: i for i, d in nx.nodes(data=True)}
    run.check(set(ids) == set(g.state_terminal), 'uncertain:networkx-nodes')
    want = {(ids[s], ids[t]) for s in g.next_state_map for a in g.next_state_map[s] for t in g.next_state_map[s][a]}
    run.check(set(nx.edges()) == want, 'uncertain:networkx-edges')
    run.case((P, s0, goals, terms, lim), len(seen) > 2)


GROUPS = [('det', det, 1500, 15000), ('uncertain', uncertain, 1000, 10000)]

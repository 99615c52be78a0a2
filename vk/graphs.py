"""Random explicit-graph planning domains and independent shortest-path oracles."""
import heapq

from skdecide import DeterministicPlanningDomain, ImplicitSpace, TransitionValue
from skdecide.hub.space.gym import ListSpace

INF = float('inf')


class N:
    """a state: hashable, comparable by equality only (no order)"""
    __slots__ = ('k',)

    def __init__(self, k): self.k = k
    def __hash__(self): return hash(self.k) % 3          # many hash collisions
    def __eq__(self, o): return isinstance(o, N) and o.k == self.k
    def __repr__(self): return f'N{self.k}'
    __lt__ = __le__ = __gt__ = __ge__ = None


def states(rng, n):
    kind = rng.choice(['int', 'tuple', 'str', 'node'])
    return [{'int': i, 'tuple': (i // 3, i % 3), 'str': f's{i}', 'node': N(i)}[kind] for i in range(n)]


class GraphDom(DeterministicPlanningDomain):
    """edges[state] = list of (action, next state, cost)"""

    def __init__(self, edges, start, goals, log=None):
        self.edges, self.start, self.goals = edges, start, goals
        self.log = log if log is not None else []
        self.map = {s: {a: (t, c) for a, t, c in es} for s, es in edges.items()}

    def _get_initial_state_(self): return self.start
    def _get_goals_(self): return ImplicitSpace(lambda o: o in self.goals)

    def _is_goal(self, o):
        g = o in self.goals
        if g:
            self.log.append(('goal', o))
        return g

    def _get_applicable_actions_from(self, m): return ListSpace([a for a, _, _ in self.edges[m]]) if self.edges[m] else _Empty()

    def _get_next_state(self, m, a):
        if a not in self.map[m]:
            raise AssertionError(f'inapplicable action {a} simulated in {m}')
        return self.map[m][a][0]

    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=self.map[m][a][1])
    def _is_terminal(self, s): return s in self.goals
    def _get_action_space_(self): return ListSpace(sorted({a for es in self.edges.values() for a, _, _ in es}, key=str) or [0])
    def _get_observation_space_(self): return ImplicitSpace(lambda o: True)


class _Empty(ListSpace):
    def __init__(self): pass
    def get_elements(self): return []
    def contains(self, x): return False
    def sample(self): raise IndexError


def random_graph(rng, n=None, acyclic=False, zero=True, goals=None):
    if n is None and goals is None and rng.random() < .5:
        return structured_graph(rng, acyclic, zero)
    n = n or rng.randint(1, 14)
    st = states(rng, n)
    step = rng.choice([1, .25, 1, 1])
    edges = {}
    style = rng.choice(['sparse', 'dense', 'grid'])
    for i, s in enumerate(st):
        es = []
        if style == 'grid' and not acyclic:
            w = max(1, int(n ** .5))
            cand = [j for j in (i - 1, i + 1, i - w, i + w) if 0 <= j < n]
        else:
            cand = [rng.randrange(i + 1, n) if acyclic else rng.randrange(n) for _ in range(rng.randint(0, 2 if style == 'sparse' else 5)) if not acyclic or i + 1 < n]
        for k, j in enumerate(cand):
            c = rng.choice([0, 1, 1, 2, 3, 5, 9, 20]) * step
            if not zero and c == 0:
                c = step
            es.append((f'a{k}', st[j], c))
        rng.shuffle(es)
        edges[s] = es
    ng = rng.choice([0, 1, 1, 1, 2, 3]) if goals is None else goals
    gs = set(rng.sample(st, min(n, ng)))
    return edges, st[0] if acyclic or rng.random() < .5 else rng.choice(st), gs


def structured_graph(rng, acyclic=False, zero=True):
    """Far goals and ways whose order of discovery differs from the order of their costs."""
    step = rng.choice([1, .25, 1, 1])
    low = 0 if zero else 1
    succ = {}
    if rng.random() < .5:
        # ladder: many short steps are cheaper than the long jumps found first
        n = rng.randint(4, 12)
        reach = rng.randint(2, 5)
        for i in range(n):
            succ[i] = [(j, max(low, (j - i) ** 2 * rng.choice([1, 1, 2]) + rng.randint(-2, 2))) for j in range(i + 1, min(n, i + 1 + reach)) if j == i + 1 or rng.random() < .7]
        first, last = [0], [n - 1]
    else:
        # layers fully linked to the next one
        width, depth = rng.randint(2, 3), rng.randint(2, 4)
        n = width * depth + 2
        layer = [[0]] + [[1 + k * width + i for i in range(width)] for k in range(depth)] + [[n - 1]]
        for a, b in zip(layer[:-1], layer[1:]):
            for i in a:
                succ[i] = [(j, rng.randint(low, 9)) for j in b if rng.random() < .85]
        for i in range(n - 1):
            if rng.random() < .2:
                succ[i].append((rng.randint(i + 1, n - 1), rng.randint(8, 30)))
        succ[n - 1] = []
        first, last = layer[0], [n - 1] + (rng.sample(layer[-2], 1) if rng.random() < .3 else [])
    for i in range(n):
        for j, c in list(succ[i]):
            if rng.random() < .15:
                succ[i].append((j, max(low, c + rng.randint(-3, 3))))         # a parallel action
        if not acyclic and rng.random() < .3:
            succ[i].append((rng.randint(0, i), rng.randint(low, 3)))
    st = states(rng, n)
    edges = {}
    for i in range(n):
        es = [(f'a{k}', st[j], c * step) for k, (j, c) in enumerate(succ[i])]
        rng.shuffle(es)
        edges[st[i]] = es
    return edges, st[rng.choice(first)], {st[j] for j in last}


def dist_from(edges, s0):
    d = {s0: 0}
    q = [(0, 0, s0)]
    c = 0
    done = set()
    while q:
        u, _, s = heapq.heappop(q)
        if s in done:
            continue
        done.add(s)
        for a, t, w in edges[s]:
            if u + w < d.get(t, INF):
                d[t] = u + w
                c += 1
                heapq.heappush(q, (u + w, c, t))
    return d


def cost_to_go(edges, goals):
    rev = {s: [] for s in edges}
    for s, es in edges.items():
        for a, t, w in es:
            rev[t].append((a, s, w))
    best = {s: INF for s in edges}
    q = []
    c = 0
    for g in goals:
        best[g] = 0
        c += 1
        q.append((0, c, g))
    heapq.heapify(q)
    while q:
        u, _, s = heapq.heappop(q)
        if u > best[s]:
            continue
        for a, p, w in rev[s]:
            if u + w < best[p]:
                best[p] = u + w
                c += 1
                heapq.heappush(q, (u + w, c, p))
    return best


def heuristic(rng, edges, goals, consistent=True):
    """-> (name, dict)"""
    hs = cost_to_go(edges, goals)
    big = 1000
    h = {s: (v if v < INF else big) for s, v in hs.items()}
    k = rng.choice(['zero', 'perfect', 'half', 'cap', 'relaxed', 'relaxed', 'none'] + ([] if consistent else ['random', 'random']))
    if k == 'none':
        return k, None
    if k == 'zero':
        return k, {s: 0 for s in h}
    if k == 'relaxed':         # exact on the same graph with some actions made cheaper
        cheap = cost_to_go({s: [(a, t, w * rng.choice([1, 1, 1, .5, 0])) for a, t, w in es] for s, es in edges.items()}, goals)
        return k, {s: (v if v < INF else big) for s, v in cheap.items()}
    if k == 'half':
        return k, {s: v / 2 for s, v in h.items()}
    if k == 'cap':
        c = rng.choice([1, 3, 7])
        return k, {s: min(c, v) for s, v in h.items()}
    if k == 'random':          # admissible, not consistent
        return k, {s: v * rng.choice([0, .25, .5, 1]) for s, v in h.items()}
    return k, h


def describe(edges, start, goals):
    return f'start {start} goals {sorted(map(str, goals))} edges {[(s, e) for s, e in edges.items()]}'

"""Random explicit models for the C++ harness, with independent oracles."""
import heapq

INF = float('inf')


def det_graph(rng, n=None, nfeat=0, zero=True, acyclic=False, fvals=2):
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 10, 12, 16, 25])
    style = rng.choice(['sparse', 'dense', 'grid', 'chain'])
    step = rng.choice([1, 1, .25])
    g = []
    ng = rng.choice([0, 1, 1, 1, 2, 3])
    goals = set(rng.sample(range(n), min(n, ng)))
    for i in range(n):
        if style == 'grid' and not acyclic:
            w = max(1, int(n ** .5))
            cand = [j for j in (i - 1, i + 1, i - w, i + w) if 0 <= j < n]
        elif style == 'chain' and not acyclic:
            cand = [j for j in (i + 1, i + 2, i - 1) if 0 <= j < n and rng.random() < .8]
        else:
            cand = [rng.randrange(i + 1, n) if acyclic else rng.randrange(n) for _ in range(rng.randint(0, 2 if style == 'sparse' else 5)) if not acyclic or i + 1 < n]
        acts = []
        for k, j in enumerate(cand):
            c = rng.choice([0, 1, 1, 2, 3, 5, 9, 20]) * step
            if not zero and c == 0:
                c = step
            acts.append((k, [(1.0, j, c)]))
        rng.shuffle(acts)
        g.append({'goal': i in goals, 'term': i in goals, 'acts': acts, 'f': [rng.randrange(fvals) for _ in range(nfeat)]})
    return g


def ctg(g):
    """minimal cost to a goal of a deterministic graph"""
    rev = [[] for _ in g]
    for i, s in enumerate(g):
        for a, [(p, t, c)] in s['acts']:
            rev[t].append((i, c))
    best = [0 if s['goal'] else INF for s in g]
    q = [(0, i) for i, s in enumerate(g) if s['goal']]
    while q:
        u, i = heapq.heappop(q)
        if u > best[i]:
            continue
        for j, c in rev[i]:
            if u + c < best[j]:
                best[j] = u + c
                heapq.heappush(q, (u + c, j))
    return best


def reach(g, s):
    seen, q = {s}, [s]
    while q:
        i = q.pop()
        for a, outs in g[i]['acts']:
            for p, t, c in outs:
                if p > 0 and t not in seen:
                    seen.add(t)
                    q.append(t)
    return seen


def set_h(rng, g, v, kinds):
    """admissible heuristic from the exact values v; returns its kind"""
    k = rng.choice(kinds)
    cap = rng.choice([1, 3, 7])
    for s, x in zip(g, v):
        x = x if x < INF else 1000.0
        s['h'] = float({'zero': 0, 'perfect': x, 'half': x / 2, 'cap': min(cap, x), 'random': x * rng.choice([0, .25, .5, 1])}[k])
    return k


def acts_of(g, s):
    return {a: outs for a, outs in g[s]['acts']}


# ---------------------------------------------------------------- stochastic shortest paths
def ssp(rng, acyclic=False, dead=False, n=None, goal_actions=True):
    """random SSP in which every non dead-end state has a policy reaching a goal surely; costs > 0"""
    n = n or rng.choice([2, 3, 4, 5, 6, 8, 10, 14])
    step = rng.choice([1, 1, .25])
    weights = rng.choice([[1, 1, 2, 5], [1, 1, 2, 5], [1, 8, 60]])     # unlikely outcomes too
    ng = rng.choice([1, 1, 2]) if n > 2 else 1
    g = []
    nd = rng.randint(1, 2) if dead else 0
    for i in range(n):      # state i may progress to larger states; the last ng are goals
        goal = i >= n - ng
        acts = []
        if not goal or (goal_actions and rng.random() < .5):
            for k in range(rng.randint(1, 4)):
                hi = list(range(i + 1, n))
                pool = hi if acyclic else list(range(n))
                if dead and k > 0:
                    pool = pool + list(range(n, n + nd))
                if not pool:
                    continue
                m = rng.randint(1, min(3, len(pool)))
                targets = rng.sample(pool, m)
                if k == 0 and hi and not any(t in hi for t in targets):
                    targets[0] = rng.choice(hi)
                w = [rng.choice(weights) for _ in targets]
                acts.append((k, [(x / sum(w), t, rng.choice([1, 1, 2, 3, 5, 9]) * step) for x, t in zip(w, targets)]))
        rng.shuffle(acts)
        g.append({'goal': goal, 'term': goal, 'acts': acts})
    for _ in range(nd):
        g.append({'goal': False, 'term': True, 'acts': []})
    perm = list(range(len(g)))
    rng.shuffle(perm)
    out = [None] * len(g)
    for i, s in enumerate(g):
        out[perm[i]] = {**s, 'acts': [(a, [(p, perm[t], c) for p, t, c in o]) for a, o in s['acts']]}
    return out


def qval(g, v, outs, gamma):
    return sum(p * (c + gamma * v[t]) for p, t, c in outs)


def vstar(g, gamma=1.0, tol=1e-12, limit=200000):
    """optimal expected cost (inf at dead ends), by value iteration from below"""
    # states from which no policy reaches a goal surely have infinite value: iterate a.s.-reachability (gamma = 1)
    ok = set(range(len(g)))
    if gamma >= 1:
        while True:
            r = {i for i in ok if g[i]['goal']}
            while True:
                add = {i for i in ok - r if any(all(t in ok for p, t, c in o) and any(t in r for p, t, c in o) for a, o in g[i]['acts'])}
                if not add:
                    break
                r |= add
            if r == ok:
                break
            ok = r
    else:
        while True:     # finite iff some action always leads to states that are finite too
            r = {i for i in ok if g[i]['goal'] or any(all(t in ok for p, t, c in o) for a, o in g[i]['acts'])}
            if r == ok:
                break
            ok = r
    v = [0.0 if i in ok else INF for i in range(len(g))]
    for _ in range(limit):
        d = 0
        for i in ok:
            if g[i]['goal']:
                continue
            x = min(qval(g, v, o, gamma) for a, o in g[i]['acts'])
            d = max(d, abs(x - v[i]))
            v[i] = x
        if d < tol:
            break
    return v


def evaluate(g, pol, s0, gamma=1.0):
    """-> (states reached under pol from s0, J, N) solving the linear systems, or None if pol is undefined/inapplicable or never reaches a goal"""
    import numpy as np
    seen, q = {s0}, [s0]
    while q:
        i = q.pop()
        if g[i]['goal']:
            continue
        o = acts_of(g, i).get(pol.get(i))
        if o is None:
            return ('undefined', i)
        for p, t, c in o:
            if t not in seen:
                seen.add(t)
                q.append(t)
    live = sorted(i for i in seen if not g[i]['goal'])
    ix = {i: k for k, i in enumerate(live)}
    A = np.eye(len(live))
    B = np.eye(len(live))
    b = np.zeros(len(live))
    for i in live:
        for p, t, c in acts_of(g, i)[pol[i]]:
            b[ix[i]] += p * c
            if t in ix:
                A[ix[i], ix[t]] -= gamma * p
                B[ix[i], ix[t]] -= p
    try:
        J = np.linalg.solve(A, b)
        N = np.linalg.solve(B if gamma >= 1 else A, np.ones(len(live)))
    except np.linalg.LinAlgError:
        return ('improper', s0)
    if live and (N < 0).any() or not np.isfinite(J).all():
        return ('improper', s0)
    return ('ok', {i: float(J[ix[i]]) for i in live}, {i: float(N[ix[i]]) for i in live})


def doomed(g):
    """states that cannot avoid a dead end (a state without actions)"""
    d = set()
    while True:
        add = {i for i, s in enumerate(g) if i not in d and not s['goal'] and all(any(t in d for p, t, c in o) for a, o in s['acts'])}
        if not add:
            return d
        d |= add

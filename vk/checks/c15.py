"""C15 C++ RIW and MCTS: the real headers under ASan+UBSan, their simulations monitored by the environment, answers against exact bounds."""
import math

from vk import cppdrv
from vk.cppgraphs import *

RULE = ('random domains (acyclic and cyclic, deterministic and stochastic, rewards and costs), online episodes solve/act/move with and without garbage collection, environment, sampling and distribution modes; '
        'non-trivial = at least 3 executed steps or 2 actions to choose from')
REQUIRED = {'riw_optimal': 200, 'riw_steps': 300, 'mcts_steps': 300, 'mcts_bounds': 300, 'mcts_best': 60, 'mcts_exact': 150, 'collected': 150, 'mcts_draws': 30, 'mcts_choice': 10, 'env_runs': 100, 'garbage_runs': 100, 'cyclic_runs': 40, 'second_episodes': 40}
ASSUMPTIONS = ['deterministic domains for RIW and for MCTS without distributions', 'budgets in rollouts, not time', 'the random generators are seeded from std::random_device: verdicts hold for every seed', 'sequential execution policy', 'the expected value of an action is only judged when its outcomes have no other parent']
BIN = {}


def setup(tier):
    BIN.update(cppdrv.build(['RIW', 'MCTS']))


def dag(rng, stoch=False, positive=False, n=None):
    """every state reaches a terminal state, actions only lead to later states; rewards = -cost"""
    n = n or rng.choice([2, 3, 4, 5, 6, 7, 8, 9])
    g = []
    nt = rng.choice([1, 1, 2]) if n > 2 else 1
    for i in range(n):
        acts = []
        if i < n - nt:
            for k in range(rng.randint(1, 4)):
                later = list(range(i + 1, n))
                if stoch:
                    ts = rng.sample(later, min(len(later), rng.randint(1, 3)))
                else:
                    ts = [rng.choice(later)]
                w = [rng.choice([1, 1, 2, 5]) for _ in ts]
                acts.append((k, [(x / sum(w), t, float(rng.choice([0, 1, 2, 3, 5, 9, .5]) * (rng.choice([1, -1]) if positive else 1))) for x, t in zip(w, ts)]))
        rng.shuffle(acts)
        g.append({'goal': False, 'term': i >= n - nt, 'acts': acts, 'f': [i]})
    if rng.random() < .3:       # terminal states may have (never applied) actions too
        for s in g:
            if s['term']:
                s['acts'] = [(0, [(1.0, rng.randrange(n), 7.0)])]
    return g


def best(g, gamma):
    """optimal value (maximal reward) of an acyclic domain"""
    v = [0.0] * len(g)
    for i in reversed(range(len(g))):
        if not g[i]['term']:
            v[i] = max(sum(p * (-c + gamma * v[t]) for p, t, c in o) for a, o in g[i]['acts'])
    return v


def bounds(g, gamma, cut):
    lo, hi = [0.0] * len(g), [0.0] * len(g)
    for i in reversed(range(len(g))):
        if not g[i]['term']:
            los = [-c + gamma * lo[t] for a, o in g[i]['acts'] for p, t, c in o] + ([0.0] if cut else [])
            his = [-c + gamma * hi[t] for a, o in g[i]['acts'] for p, t, c in o] + ([0.0] if cut else [])
            lo[i], hi[i] = min(los), max(his)
    return lo, hi


def parse(lines):
    """-> list of episodes: list of (state, value or None, defined, policy {s: (a, v)}, action, rollouts, longest, explored, status)"""
    eps, cur, pol, val = [], [], {}, None
    for l in lines:
        if l[0] == 'value':
            val = (None if l[2] == 'none' else float(l[2]), l[3] == '1')
            pol = {}
        elif l[0] == 'pol':
            pol[int(l[1])] = (int(l[2]), float(l[3]))
        elif l[0] == 'step':
            cur.append((int(l[1]), *(val or (None, False)), pol, int(l[2]), int(l[3]), int(l[4]), int(l[5]), ' '.join(l[6:])))
            val, pol = None, {}
        elif l[0] == 'endrun':
            eps.append((cur, int(l[1])))
            cur = []
    return eps


def episodes(run, rng, g, name, params, starts, horizon, same_init=False):
    ops = []
    for k, s in enumerate(starts):
        if k and (params.get('env') or rng.random() < .4):      # the environment is at its start again: forget the executed actions
            ops.append('clear')
        ops.append(f'episode {s} {horizon}')
    text = cppdrv.scenario(params, g, ops)
    lines = cppdrv.execute(run, BIN[name], text)
    if lines is None:
        return None, text
    if params.get('env'):
        run.hit('env_runs')
    if params.get('garbage'):
        run.hit('garbage_runs')
    if len(starts) > 1:
        run.hit('second_episodes')
    return parse(lines), text


def spare():
    """every parallel simulation may start before the last one of the budget is counted"""
    return cppdrv.PAR['capacity'] - 1 if cppdrv.PAR else 0


def common_checks(run, low, g, params, step, ctx):
    s, val, defined, pol, a, nroll, longest, expl, status = step
    run.check(status == 'ok', f'{low}:throws', ctx)
    run.check(defined == (a >= 0) and (val is not None or not defined), f'{low}:defined-without-action', ctx)
    for i, (b, v) in pol.items():
        run.check(b in acts_of(g, i), f'{low}:inapplicable-action', lambda: f'state {i} action {b} ' + ctx())
    if a >= 0:
        if run.check(a in acts_of(g, s), f'{low}:inapplicable-action', ctx):
            run.check(pol.get(s) == (a, val), f'{low}:policy-map', lambda: f'{pol.get(s)} ' + ctx())
    run.check(1 <= nroll <= params['rollouts'] + spare(), f'{low}:rollout-budget', ctx)
    run.check(1 <= expl <= len(g), f'{low}:explored-states', ctx)
    if params.get('env'):
        run.check(longest <= params['depth'], f'{low}:rollout-longer-than-max-depth', lambda: f'{longest} ' + ctx())


def reach(g, roots):
    seen, todo = set(roots), list(roots)
    while todo:
        for a, outs in g[todo.pop()]['acts']:
            for p, t, c in outs:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    return seen


def garbage(run, low, g, params, eps, text):
    """with garbage collection, states that the execution has left for good are not kept"""
    if not params.get('garbage') or cppdrv.PAR:
        return
    for e, (ep, end) in enumerate(eps):
        for i, st in enumerate(ep):
            s, a, expl = st[0], st[4], st[7]
            if a < 0 or a not in acts_of(g, s) or (low == 'mcts' and not i) or (low == 'riw' and e):
                continue
            keep = reach(g, [s] if low == 'mcts' else [t for p, t, c in acts_of(g, s)[a]])
            run.hit('collected', int(len(keep) < len(g)))
            run.check(expl <= len(keep), f'{low}:dead-states-kept', lambda: f'{expl} states kept, {len(keep)} reachable at step {i} {params} {ep}\n{text}')


def riw(run, rng):
    """acyclic deterministic domains with identifying features: nothing is pruned, so the search is exhaustive"""
    g = dag(rng, positive=rng.random() < .4)
    gamma = rng.choice([1.0, 1.0, .9, .5])
    v = best(g, gamma)
    sim = int(rng.random() < .5)
    params = {'sim': sim, 'env': 1 - sim, 'hash': rng.choice([0, 1]), 'discount': gamma, 'garbage': int(rng.random() < .5), 'depth': 1000, 'rollouts': 100000, 'debug': rng.choice([0, 0, 1]),
              'exploration': rng.choice([.25, .5, .01])}
    live = [i for i in range(len(g)) if not g[i]['term']]
    eps, text = episodes(run, rng, g, 'RIW', params, [rng.choice(live[:2])] + [rng.choice(live) for _ in range(rng.choice([0, 0, 1, 2]))], 20)
    if eps is None:
        return
    k = 0
    garbage(run, 'riw', g, params, eps, text)
    for ep, end in eps:
        for st in ep:
            s, val, defined, pol, a = st[:5]
            ctx = lambda: f'{params} at {st} optimal {v}\n{text}'
            common_checks(run, 'riw', g, params, st, ctx)
            if a < 0:
                run.fail('riw:no-action', ctx())
                return
            run.hit('riw_steps')
            if cppdrv.PAR:      # a state reached by two simulations at once may be pruned: its value is then a lower bound
                run.hit('riw_bounded')
                run.check(val <= v[s] + 1e-6, 'riw:value-above-optimum', ctx)
                k += 1
                continue
            run.check(abs(val - v[s]) < 1e-6, 'riw:value', ctx)
            q = qval_r(g, v, acts_of(g, s)[a], gamma)
            if run.check(abs(q - v[s]) < 1e-6, 'riw:suboptimal-action', lambda: f'q {q} ' + ctx()):
                run.hit('riw_optimal')
            k += 1
        run.check(g[end]['term'], 'riw:episode-not-finished', lambda: f'{ep}\n{text}')
    run.case((params, [len(x['acts']) for x in g], v[:5]), k >= 3 or len(g[0]['acts']) > 1)


def qval_r(g, v, outs, gamma):
    return sum(p * (-c + gamma * v[t]) for p, t, c in outs)


def riw_any(run, rng):
    """cyclic domains, arbitrary features, small depths and budgets: bounded rollouts, applicable actions, no memory error"""
    n = rng.choice([1, 2, 3, 4, 6, 9, 14])
    g = det_graph(rng, n=n)
    nf = rng.choice([1, 1, 2, 3])
    for i, s in enumerate(g):
        s['f'] = [i] if rng.random() < .3 and nf == 1 else [rng.randrange(3) for _ in range(nf)]
        s['term'] = s['goal'] or not s['acts']
    live = [i for i in range(n) if not g[i]['term']]
    run.require(live)
    sim = int(rng.random() < .5)
    params = {'sim': sim, 'env': 1 - sim, 'hash': 0, 'discount': rng.choice([1.0, .9]), 'garbage': int(rng.random() < .5), 'depth': rng.choice([1, 2, 5, 20]), 'rollouts': rng.choice([1, 3, 50, 500]),
              'exploration': rng.choice([.25, .5, .01]), 'debug': rng.choice([0, 0, 1]), 'budget': 20000000}
    eps, text = episodes(run, rng, g, 'RIW', params, [rng.choice(live) for _ in range(rng.choice([1, 1, 2, 3]))], 8)
    if eps is None:
        return
    run.hit('cyclic_runs')
    k = 0
    garbage(run, 'riw', g, params, eps, text)
    for ep, end in eps:
        for st in ep:
            ctx = lambda: f'{params} at {st}\n{text}'
            common_checks(run, 'riw', g, params, st, ctx)
            k += 1
    run.case((params, [len(x['acts']) for x in g], [x['f'] for x in g][:4]), k >= 3)


def mcts(run, rng):
    stoch = rng.random() < .5
    g = dag(rng, stoch, positive=rng.random() < .5)
    gamma = rng.choice([1.0, 1.0, .9])
    mode = rng.choice([0, 0, 1]) if stoch else rng.choice([0, 1, 2, 2])
    if stoch:
        mode = 0
    depth = rng.choice([1000, 1000, 1000, 1, 2, 3])
    lo, hi = bounds(g, gamma, depth < len(g))
    params = {'mode': mode, 'env': int(mode == 2), 'discount': gamma, 'garbage': int(rng.random() < .5), 'depth': depth, 'rollouts': rng.choice([1, 2, 5, 20, 100, 300]), 'debug': rng.choice([0, 0, 1]), 'seed': rng.randrange(1 << 30)}
    live = [i for i in range(len(g)) if not g[i]['term']]
    eps, text = episodes(run, rng, g, 'MCTS', params, [rng.choice(live[:2])] + [rng.choice(live) for _ in range(rng.choice([0, 0, 1, 2]))], 12)
    if eps is None:
        return
    k = 0
    garbage(run, 'mcts', g, params, eps, text)
    for ep, end in eps:
        for st in ep:
            s, val, defined, pol, a, nroll = st[:6]
            ctx = lambda: f'{params} at {st} lo {lo} hi {hi}\n{text}'
            common_checks(run, 'mcts', g, params, st, ctx)
            if not run.check(a >= 0, 'mcts:no-action', ctx):
                return
            run.check(params['rollouts'] <= nroll <= params['rollouts'] + spare(), 'mcts:rollout-budget', ctx)
            run.hit('mcts_steps')
            for i, (b, v) in pol.items():       # averages of real returns
                run.hit('mcts_bounds')
                outs = acts_of(g, i)[b]
                l = min(-c + gamma * lo[t] for p, t, c in outs)
                h = max(-c + gamma * hi[t] for p, t, c in outs)
                run.check(l - 1e-9 <= v <= h + 1e-9, 'mcts:value-outside-achievable-returns', lambda: f'state {i} action {b} value {v} not in [{l}, {h}] ' + ctx())
            if nroll >= len(g[s]['acts']) * (1 + spare()) and all(g[t]['term'] for x, o in g[s]['acts'] for p, t, c in o) and all(len(o) == 1 for x, o in g[s]['acts']):
                m = max(-o[0][2] for x, o in g[s]['acts'])        # every action ends the episode: its value is known after one visit
                run.hit('mcts_best')
                run.check(abs(-acts_of(g, s)[a][0][2] - m) < 1e-9 and abs(val - m) < 1e-9, 'mcts:not-the-best-known-action', lambda: f'best {m} ' + ctx())
            k += 1
        run.check(g[end]['term'] or len(ep) == 12, 'mcts:episode-not-finished', lambda: f'{ep}\n{text}')
    run.case((params, [len(x['acts']) for x in g], lo[:4]), k >= 3 or len(g[0]['acts']) > 1)


def mcts_any(run, rng):
    """cyclic and stochastic domains with few rollouts"""
    if rng.random() < .5:
        g = ssp(rng, False, False)
        mode = 0
    else:
        g = det_graph(rng)
        mode = rng.choice([0, 1, 2])
        for s in g:
            s['term'] = s['goal'] or not s['acts']
    live = [i for i in range(len(g)) if not g[i]['term']]
    run.require(live)
    params = {'mode': mode, 'env': int(mode == 2), 'discount': rng.choice([1.0, .9]), 'garbage': int(rng.random() < .6), 'depth': rng.choice([1, 2, 5, 20]), 'rollouts': rng.choice([1, 3, 30, 200]), 'debug': rng.choice([0, 0, 1]),
              'budget': 20000000, 'seed': rng.randrange(1 << 30)}
    eps, text = episodes(run, rng, g, 'MCTS', params, [rng.choice(live) for _ in range(rng.choice([1, 1, 2, 3]))], 8)
    if eps is None:
        return
    run.hit('cyclic_runs')
    k = 0
    garbage(run, 'mcts', g, params, eps, text)
    for ep, end in eps:
        for st in ep:
            ctx = lambda: f'{params} at {st}\n{text}'
            common_checks(run, 'mcts', g, params, st, ctx)
            run.check(params['rollouts'] <= st[5] <= params['rollouts'] + spare(), 'mcts:rollout-budget', ctx)
            run.check(st[4] >= 0, 'mcts:no-action', ctx)
            k += 1
    run.case((params, [len(x['acts']) for x in g]), k >= 3)


def mcts_draws(run, rng):
    """one decision with random outcomes: values are averages of outcomes drawn with the given probabilities (deviations a fair draw shows less than once in 1e10)"""
    k = rng.choice([1, 1, 2, 3])
    scale = rng.choice([1, 5, 40]) if k == 1 else 1
    nl = rng.randint(2, 4)
    g = [{'goal': False, 'term': False, 'acts': [], 'f': [0]}] + [{'goal': False, 'term': True, 'acts': [], 'f': [i + 1]} for i in range(nl * k)]
    N = 2000
    means = []
    for a in range(k):
        ts = rng.sample(range(1 + a * nl, nl + 1 + a * nl), rng.randint(2, nl) if k == 1 else nl)       # backups reach every parent: no outcome is shared
        if k == 1:
            w = [rng.choice([1, 1, 2, 9, 40]) for _ in ts]
            r = [round(rng.uniform(0, scale), 3) for _ in ts]
        else:           # one action is clearly better: .9 on average against .1
            good = rng.random() < .5
            w = [1] + [9 / (len(ts) - 1)] * (len(ts) - 1)
            r = [0.0 if good else 1.0] + [1.0 if good else 0.0] * (len(ts) - 1)
            z = list(zip(ts, w, r))
            rng.shuffle(z)
            ts, w, r = zip(*z)
        g[0]['acts'].append((a, [(x / sum(w), t, -float(y)) for x, t, y in zip(w, ts, r)]))
        if rng.random() < .3:       # an outcome listed twice counts with its whole probability
            i = rng.randrange(len(ts))
            z = list(zip(ts, w, r)) + [(ts[i], rng.choice([1, 5]) if k == 1 else w[i], r[i])]
            ts, w, r = zip(*z)
            o = [(x / sum(w), t, -float(y)) for x, t, y in zip(w, ts, r)]
            g[0]['acts'][-1] = (a, o)
        means.append(sum(x * y for x, y in zip(w, r)) / sum(w))
    params = {'mode': 0, 'env': 0, 'discount': rng.choice([1.0, .9]), 'garbage': 0, 'depth': rng.choice([1, 5, 1000]), 'rollouts': N, 'debug': 0, 'seed': rng.randrange(1 << 30)}
    eps, text = episodes(run, rng, g, 'MCTS', params, [0], 1)
    if eps is None:
        return
    ctx = lambda: f'{params} {eps} means {means}\n{text}'
    st = eps[0][0][0]
    common_checks(run, 'mcts', g, params, st, ctx)
    s, val, defined, pol, a = st[:5]
    if not run.check(a >= 0, 'mcts:no-action', ctx):
        return
    eps_ = scale * (math.sqrt(math.log(2e10) / (2 * N)) + 5 / N)
    if k == 1:
        run.hit('mcts_draws')
        spread = max(-c for p, t, c in g[0]['acts'][0][1]) - min(-c for p, t, c in g[0]['acts'][0][1])
        run.check(abs(val - means[0]) <= eps_ * spread / scale + 1e-9, 'mcts:outcomes-not-drawn-as-given', ctx)
    elif max(means) - min(means) > .5:
        run.hit('mcts_choice')
        run.check(abs(means[a] - max(means)) < 1e-9, 'mcts:clearly-worse-action', ctx)
    run.case((params, means), True)


def mcts_chain(run, rng):
    """one action with one outcome per state: every simulation returns the same, so every average is exact"""
    n = rng.randint(2, 12)
    g = []
    for i in range(n):
        nxt = rng.randint(i + 1, min(n - 1, i + 3)) if i < n - 1 else i
        g.append({'goal': False, 'term': i == n - 1, 'acts': [(rng.randint(0, 3), [(1.0, nxt, float(rng.choice([0, 1, 2, 5, .5, -3])))])] if i < n - 1 else [], 'f': [i]})
    gamma = rng.choice([1.0, .9, .5])
    v = best(g, gamma)
    mode = rng.choice([0, 1, 2])
    params = {'mode': mode, 'env': int(mode == 2), 'discount': gamma, 'garbage': int(rng.random() < .5), 'depth': 1000, 'rollouts': rng.choice([1, 2, 3, 10, 60]), 'debug': 0, 'seed': rng.randrange(1 << 30)}
    eps, text = episodes(run, rng, g, 'MCTS', params, [0] + [rng.randrange(n - 1) for _ in range(rng.choice([0, 0, 1]))], 15)
    if eps is None:
        return
    garbage(run, 'mcts', g, params, eps, text)
    for ep, end in eps:
        for st in ep:
            ctx = lambda: f'{params} at {st} values {v}\n{text}'
            common_checks(run, 'mcts', g, params, st, ctx)
            if st[0] in st[3]:
                run.hit('mcts_exact')
            for i, (b, x) in st[3].items():
                run.check(abs(x - v[i]) < 1e-6, 'mcts:chain-value', lambda: f'state {i} ' + ctx())
        run.check(end == n - 1, 'mcts:episode-not-finished', lambda: f'{ep}\n{text}')
    run.case((params, v), n >= 3)


GROUPS = [('riw', riw, 500, 6000, None), ('riw_any', riw_any, 300, 4000, None), ('mcts', mcts, 500, 6000, None), ('mcts_chain', mcts_chain, 120, 2000, None), ('mcts_draws', mcts_draws, 120, 2000, None), ('mcts_any', mcts_any, 300, 3000, None)]

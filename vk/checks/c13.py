"""C13 C++ AO*, ILAO* and LRTDP: the real headers under ASan+UBSan against exact value iteration / policy evaluation."""
from vk import cppdrv
from vk.cppgraphs import *

RULE = ('random stochastic shortest path problems (cycles, several outcomes and goals, goals with outgoing actions, avoidable and unavoidable dead ends, discounts), admissible heuristics, '
        'sequences of solve/clear/act from several starts; non-trivial = optimal policy with at least 2 non-goal states')
REQUIRED = {'aostar_solved': 200, 'ilaostar_solved': 200, 'lrtdp_solved': 200, 'resolves': 200, 'unsolvable': 30, 'dead_end_cases': 100, 'closed_loop_steps': 100, 'goal_at_start': 20, 'no_label_runs': 30, 'aostar_detecting': 80, 'cycles_detected': 50, 'cycles_none_met': 50, 'collected': 10}
ASSUMPTIONS = ['positive costs larger than epsilon, admissible heuristics; AO* on acyclic problems only', 'sequential execution policy', 'the exploration seed of LRTDP comes from std::random_device: verdicts hold for every seed']
BIN = {}
TOL = 1e-6


def setup(tier):
    BIN.update(cppdrv.build(['AOSTAR', 'ILAOSTAR', 'LRTDP']))


def blocks(lines):
    """split the answer into per-op blocks"""
    it = iter(lines)
    for l in it:
        yield l


def judge(run, g, v, s, ans, eps, gamma, tag, ctx, exact=False, full=True):
    """ans: {state: (defined, value, action)} after solving from s"""
    d, val, a = ans[s]
    if v[s] == INF:
        run.hit('unsolvable')
        run.check(not d, f'{tag}:policy-for-unsolvable', ctx)
        return None
    if g[s]['goal']:
        run.hit('goal_at_start')
        return None
    pol = {i: x[2] for i, x in ans.items() if x[2] is not None}
    if cppdrv.PAR and tag.startswith('lrtdp'):      # the trials label states while others still update their successors: no optimality
        run.check(s in pol, f'{tag}:no-action', ctx)
        run.hit('lrtdp_bounded')
        bounded(run, g, v, ans, tag, ctx)
        return None
    e = evaluate(g, pol, s, gamma)
    if not run.check(e[0] == 'ok', f'{tag}:policy-{e[0]}', lambda: f'{e} ' + ctx()):
        return None
    J, N = e[1], e[2]
    for i in J:         # every state the policy can reach from the start
        d, val, a = ans[i]
        run.check(d, f'{tag}:solution-undefined-on-policy', lambda: f'state {i} ' + ctx())
        slack = TOL + (0 if exact else eps * N[i])
        if not full and i != s:
            continue
        run.check(abs(J[i] - v[i]) <= slack, f'{tag}:suboptimal-policy', lambda: f'state {i} policy cost {J[i]} optimal {v[i]} slack {slack} ' + ctx())
        run.check(abs(val - v[i]) <= slack, f'{tag}:value', lambda: f'state {i} value {val} optimal {v[i]} slack {slack} ' + ctx())
    bounded(run, g, v, ans, tag, ctx)
    return J


def bounded(run, g, v, ans, tag, ctx):
    for i, (d, val, a) in ans.items():      # whatever the solver reports stays a lower bound, with applicable actions
        if val is not None and val < INF and not g[i]['goal']:
            run.check(val <= v[i] + TOL, f'{tag}:value-above-optimum', lambda: f'state {i} value {val} optimal {v[i]} ' + ctx())
        if a is not None:
            run.check(a in acts_of(g, i), f'{tag}:inapplicable-action', lambda: f'state {i} action {a} ' + ctx())


def session(run, rng, name, params, g, v, eps, gamma, exact, kind, noresolve=False):
    n = len(g)
    ops, text_ops = [], []
    for k in range(1 if noresolve else rng.choice([1, 1, 2, 3, 4])):
        s = rng.randrange(n)
        if rng.random() < .15:
            s = rng.choice([i for i in range(n) if g[i]['goal']])
        clear = k > 0 and rng.random() < .2
        ops.append((clear, s))
        if clear:
            text_ops.append('clear')
        text_ops.append(f'solve {s}')
        for i in range(n):
            text_ops.append(f'query {i}')
            if not params.get('garbage'):
                text_ops.append(f'act {i}')
        if params.get('garbage'):
            text_ops += ['pol', f'act {s}']
        elif name != 'AOSTAR':
            text_ops.append('pol')
    text = cppdrv.scenario(params, g, text_ops)
    lines = cppdrv.execute(run, BIN[name], text)
    if lines is None:
        return
    it = iter(lines)
    fresh, best = True, 0
    low = name.lower()
    for k, (clear, s) in enumerate(ops):
        if clear:
            l = next(it)
            if name != 'AOSTAR':
                run.check(l[1] == '0', f'{low}:clear-keeps-nodes', lambda: str(l))
            fresh = True
        sl = next(it)
        ctx = lambda: f'{name} {params} op {k} start {s} h={kind} v={v} answers={ans}\n{text}'
        ans, pol = {}, None
        for i in range(n):
            q = next(it)
            a = None
            if not params.get('garbage'):
                al = next(it)
                a = int(al[2]) if int(al[2]) >= 0 else None
            ans[i] = (q[2] == '1', None if q[3] == 'none' else float(q[3]), a)
        if params.get('garbage') or name != 'AOSTAR':
            pol = {}
            l = next(it)
            while l[0] == 'pol':
                pol[int(l[1])] = (int(l[2]), float(l[3]))
                l = next(it)
        if params.get('garbage'):
            ans = {i: (x[0], x[1], pol[i][0] if i in pol else None) for i, x in ans.items()}
            al = next(it)
            run.check((int(al[2]) >= 0) == ans[s][0], f'{low}:act', ctx)
            if int(al[2]) >= 0 and ans[s][2] is not None:
                run.check(int(al[2]) == ans[s][2], f'{low}:act', ctx)
        elif pol is not None:
            run.eq(pol, {i: (x[2], x[1]) for i, x in ans.items() if x[2] is not None}, f'{low}:policy-map', text)
        if not run.check(sl[6] == 'ok', f'{low}:solve-throws', ctx):
            return
        tag = low + (':first' if fresh else ':resolve')
        if not fresh:
            run.hit('resolves')
        for i, x in ans.items():
            run.check(x[0] == (x[2] is not None) or (name == 'AOSTAR' and not x[0]), f'{low}:defined-without-action', ctx)
        J = judge(run, g, v, s, ans, eps, gamma, tag, ctx, exact, full=name != 'ILAOSTAR')
        if J is not None:
            run.hit(low + '_solved')
            best = max(best, len(J))
        fresh = False
    if any(not s['goal'] and not s['acts'] for s in g):
        run.hit('dead_end_cases')
    run.case((name, n, kind, gamma, [len(s['acts']) for s in g], [round(x, 6) if x < INF else x for x in v[:6]], ops), best >= 2)


def prep(run, rng, acyclic=False, unsolvable=False):
    dead = unsolvable or rng.random() < .35
    g = ssp(rng, acyclic, dead)
    if unsolvable:          # some states can only move to dead ends
        ds = [i for i, s in enumerate(g) if not s['goal'] and not s['acts']]
        for i in rng.sample(range(len(g)), rng.randint(1, max(1, len(g) // 3))):
            if not g[i]['goal'] and i not in ds:
                g[i]['acts'] = [(0, [(1.0, rng.choice(ds), 1.0)])] if rng.random() < .5 else [(0, [(.5, rng.choice(ds), 1.0), (.5, *[(x, 1.0) for x in [rng.choice([j for j in range(len(g)) if j not in ds and (not acyclic or g[j]['goal'])])]][0])])]
    gamma = rng.choice([1.0, 1.0, 1.0, .95, .5])
    v = vstar(g, gamma)
    run.require(gamma < 1 or doomed(g) == {i for i in range(len(g)) if v[i] == INF})     # no endless goal-less cycling (outside the SSP assumptions)
    kind = set_h(rng, g, v, ['zero', 'perfect', 'half', 'cap', 'random'])
    return g, v, gamma, kind


def aostar(run, rng, unsolvable=False):
    g, v, gamma, kind = prep(run, rng, True, unsolvable)
    cycles = rng.choice([0, 0, 1])      # asked to detect cycles where there are none
    run.hit('aostar_detecting', cycles)
    session(run, rng, 'AOSTAR', {'discount': gamma, 'tips': rng.choice([1, 1, 2, 5]), 'debug': rng.choice([0, 0, 0, 1]), 'cycles': cycles}, g, v, 0, gamma, True, kind)


def ilaostar(run, rng, unsolvable=False):
    g, v, gamma, kind = prep(run, rng, rng.random() < .2, unsolvable)
    eps = rng.choice([1e-3, 1e-5, 1e-7, .05])
    session(run, rng, 'ILAOSTAR', {'discount': gamma, 'epsilon': eps, 'debug': rng.choice([0, 0, 0, 1])}, g, v, eps, gamma, False, kind)


def lrtdp(run, rng, unsolvable=False):
    g, v, gamma, kind = prep(run, rng, rng.random() < .2, unsolvable)
    eps = rng.choice([1e-3, 1e-5, 1e-7, .05, .2])       # coarse ones: unlikely branches must be labelled with the same care
    session(run, rng, 'LRTDP', {'discount': gamma, 'epsilon': eps, 'debug': rng.choice([0, 0, 0, 1]), 'seed': rng.randrange(1 << 30), 'garbage': int(rng.random() < .3)}, g, v, eps, gamma, False, kind)


def nolabels(run, rng):
    """LRTDP without labels: plain RTDP with a fixed number of rollouts; values stay lower bounds and converge"""
    g, v, gamma, kind = prep(run, rng)
    s = rng.randrange(len(g))
    run.require(v[s] < INF and not g[s]['goal'])
    n = len(g)
    k = 3000 if n <= 6 else 400
    text = cppdrv.scenario({'discount': gamma, 'labels': 0, 'rollouts': k, 'epsilon': 1e-3, 'budget': 50000000}, g, [f'solve {s}'] + [f'query {i}' for i in range(n)])
    lines = cppdrv.execute(run, BIN['LRTDP'], text)
    if lines is None:
        return
    run.check(lines[0][5] == str(k), 'rtdp:rollout-count', lambda: f'{lines[0]}\n{text}')
    for l in lines[1:-1]:
        i = int(l[1])
        if l[3] != 'none':
            run.check(float(l[3]) <= v[i] + TOL or float(l[3]) == v[i], 'rtdp:value-above-optimum', lambda: f'state {i} value {l[3]} optimal {v[i]} v={v}\n{text}')
    run.hit('no_label_runs')
    run.case((n, kind, gamma, s, [len(x['acts']) for x in g]), n > 2)


def reach(g, s):
    seen, todo = set(), [s]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [t for a, outs in g[x]['acts'] for p, t, c in outs]
    return seen


def closedloop(run, rng):
    """act, move, solve again, with and without garbage collection of the unreachable nodes"""
    g, v, gamma, kind = prep(run, rng)
    ok = [i for i in range(len(g)) if v[i] < INF and not g[i]['goal']]
    run.require(ok)
    name = rng.choice(['LRTDP', 'LRTDP', 'LRTDP', 'ILAOSTAR'])
    eps = 1e-6
    params = {'discount': gamma, 'epsilon': eps, 'seed': rng.randrange(1 << 30)}
    if name == 'LRTDP':
        params['garbage'] = int(rng.random() < .7)
    ops, spans = [], []
    for _ in range(rng.choice([1, 2, 3])):
        ops.append(f'run {rng.choice(ok)} 12')
        if rng.random() < .3:
            ops.append('clear')
    text = cppdrv.scenario(params, g, ops)
    lines = cppdrv.execute(run, BIN[name], text)
    if lines is None:
        return
    seen, inside = 0, 0
    for l in lines:
        inside = inside + 1 if l[0] == 'step' else 0
        if l[0] == 'step':
            s, a = int(l[1]), int(l[2])
            seen += 1
            run.hit('closed_loop_steps')
            if params.get('garbage') and inside > 1 and a >= 0:        # states left for good are not kept
                keep = reach(g, s)
                run.hit('collected', int(len(keep) < len(g)))
                run.check(int(l[4]) <= len(keep), 'loop:dead-states-kept', lambda: f'{l} only {sorted(keep)} can be reached\n{text}')
            if not run.check(a >= 0 and a in acts_of(g, s), 'loop:no-applicable-action', lambda: f'{name} {l} v={v}\n{text}'):
                continue
            q = qval(g, v, acts_of(g, s)[a], gamma)
            run.check(q <= v[s] + 1e-3, 'loop:suboptimal-action', lambda: f'{name} {l} q {q} v={v}\n{text}')
            run.check(abs(float(l[3]) - v[s]) <= 1e-3, 'loop:value', lambda: f'{name} {l} v={v}\n{text}')
    run.case((name, params, [len(x['acts']) for x in g], ops), seen >= 3)


def cycles(run, rng):
    """AO* asked to detect cycles: on any graph it ends, with the optimal policy or, only if the states it can reach form a cycle, with an exception"""
    g, v, gamma, kind = prep(run, rng)
    s = rng.randrange(len(g))
    n = len(g)
    text = cppdrv.scenario({'discount': gamma, 'tips': rng.choice([1, 1, 2, 5]), 'cycles': 1, 'budget': 300000}, g, [f'solve {s}'] + [f'query {i}\nact {i}' for i in range(n)])
    lines = cppdrv.execute(run, BIN['AOSTAR'], text)
    if lines is None:
        return
    nxt = {i: {t for a, outs in g[i]['acts'] for p, t, c in outs} if not g[i]['goal'] else set() for i in range(n)}
    seen, todo = set(), [s]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += nxt[x]
    left = {i: set(nxt[i]) for i in seen}       # peel the states without successors: what stays reaches a cycle
    while True:
        gone = {i for i, x in left.items() if not x}
        if not gone:
            break
        left = {i: x - gone for i, x in left.items() if i not in gone}
    ok = lines[0][6] == 'ok'
    ctx = lambda: f'start {s} v={v}\n{lines[:1 + 2 * n]}\n{text}'
    if not ok:
        run.hit('cycles_detected')
        run.check(left and 'cycle' in lines[0], 'aostar:cycle-where-there-is-none', ctx)
    else:
        it = iter(lines[1:])
        ans = {}
        for i in range(n):
            q, al = next(it), next(it)
            ans[i] = (q[2] == '1', None if q[3] == 'none' else float(q[3]), int(al[2]) if int(al[2]) >= 0 else None)
        run.hit('cycles_none_met')
        judge(run, g, v, s, ans, 0, gamma, 'aostar:cycles', ctx, True)
    run.case((n, kind, gamma, s, [len(x['acts']) for x in g]), bool(left))


def unsolvable(run, rng):
    rng.choice([aostar, ilaostar, lrtdp])(run, rng, True)


GROUPS = [('aostar', aostar, 400, 5000, None), ('ilaostar', ilaostar, 400, 5000, None), ('lrtdp', lrtdp, 400, 5000, None), ('nolabels', nolabels, 60, 400, None),
          ('cycles', cycles, 200, 3000, None), ('closedloop', closedloop, 150, 2000, None), ('unsolvable', unsolvable, 150, 2000, None)]

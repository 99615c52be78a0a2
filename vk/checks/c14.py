"""C14 C++ IW and BFWS: the real headers under ASan+UBSan; the recorded search is replayed against the definition of the width search."""
from itertools import combinations

from vk import cppdrv
from vk.cppgraphs import *
from vk.checks.c12 import follow

RULE = ('random deterministic graphs with random state features (injective or not), orderings and heuristics, sequences of solve/clear from several starts on one solver object; '
        'every expansion the solver makes is replayed against the width/novelty definition; non-trivial = plan of at least 2 actions')
REQUIRED = {'iw_plans': 200, 'bfws_plans': 200, 'plan_steps': 600, 'expansions': 2000, 'order_checks': 500, 'pruned_states': 200, 'second_width': 40, 'unsolvable': 40, 'resolves': 80, 'exhaustive': 40, 'goal_at_start': 20}
ASSUMPTIONS = ['non-negative costs', 'features identify states when they are used to hash them', 'sequential execution policy']
BIN = {}


def setup(tier):
    BIN.update(cppdrv.build(['IW', 'BFWS']))


def featured(rng, injective):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 10, 12, 16, 25])
    g = det_graph(rng, n=n, zero=rng.random() < .6)
    base = rng.choice([2, 2, 3, 5])
    k = 1
    while base ** k < n:
        k += 1
    perm = list(range(base ** k))
    rng.shuffle(perm)
    extra = rng.choice([0, 0, 1, 2])
    for i, s in enumerate(g):
        s['f'] = [(perm[i] // base ** j) % base for j in range(k)] + [rng.randrange(2) for _ in range(extra)]
        if not injective:
            s['f'] = [rng.randrange(2) for _ in range(k + extra)]
        if not s['goal'] and rng.random() < .1:
            s['term'] = True
    return g


def reachable(g, s):
    """states reachable without leaving a goal or terminal state"""
    seen, q = {s}, [s]
    while q:
        i = q.pop()
        if g[i]['goal'] or g[i]['term']:
            continue
        for a, [(p, t, c)] in g[i]['acts']:
            if t not in seen:
                seen.add(t)
                q.append(t)
    return seen


def split(lines):
    """-> list of (trace lines, solve line, scores, {state: (defined, value)}, {state: action}, explored after)"""
    out, trace, cur = [], [], None
    for l in lines:
        if l[0] in 'EN':
            trace.append(l)
        elif l[0] == 'solve':
            cur = [trace, l, [], {}, {}]
            trace = []
            out.append(cur)
        elif l[0] == 'clear':
            out.append(l)
        elif l[0] == 'score':
            cur[2].append(float(l[2]))
        elif l[0] == 'q':
            cur[3][int(l[1])] = (l[2], l[3])
        elif l[0] == 'act':
            cur[4][int(l[1])] = int(l[2]) if int(l[2]) >= 0 else None
    return out


def order_key(order, gs, nov, depth):
    return {0: (gs,), 1: (nov, gs, depth), 2: (depth,)}[order]


def replay_iw(run, g, root, trace, order, solved, found, exhaustive, value, ctx):
    """offline checker of the trace of one IW solve"""
    nf = len(g[root]['f'])
    widths, cur = [], None
    for l in trace:
        if l[0] == 'E' and int(l[1]) == root:
            cur = []
            widths.append(cur)
        if not run.check(cur is not None, 'iw:search-not-from-start', ctx):
            return
        cur.append(l)
    if not run.check(len(widths) <= nf, 'iw:too-many-widths', ctx):
        return
    if len(widths) > 1:
        run.hit('second_width')
    for w, tr in enumerate(widths, 1):
        tuples = [set() for _ in range(w)]

        def novelty(s):
            best = None
            f = g[s]['f']
            for k in range(1, min(w, nf) + 1):
                for ix in combinations(range(nf), k):
                    t = (ix, tuple(f[i] for i in ix))
                    if t not in tuples[k - 1]:
                        tuples[k - 1].add(t)
                        best = best or k
            return best
        nov = {root: novelty(root)}
        gs, depth = {root: 0}, {root: 0}
        open_, closed, pruned = {root}, set(), set()
        last = None
        for l in tr:
            s = int(l[1])
            if l[0] == 'E':
                run.hit('expansions')
                if not run.check(s in open_, 'iw:expands-unexpected-state', lambda: f'width {w} state {s} open {open_} pruned {pruned} closed {closed} ' + ctx()):
                    return
                if not run.check(not g[s]['goal'] and not g[s]['term'], 'iw:expands-terminal-state', lambda: f'width {w} state {s} ' + ctx()):
                    return
                others = [t for t in open_ if t != s and not g[t]['goal'] and not g[t]['term'] and t not in solved]
                if others:
                    run.hit('order_checks')
                    best = min(order_key(order, gs[t], nov[t], depth[t]) for t in others)
                    run.check(order_key(order, gs[s], nov[s], depth[s]) <= best, f'iw:expansion-order-{order}', lambda: f'width {w} state {s} before {best} ' + ctx())
                open_.discard(s)
                closed.add(s)
                last = s
            else:
                t = int(l[3])
                if not run.check(s == last, 'iw:transition-of-unexpanded-state', ctx):
                    return
                c = acts_of(g, s)[int(l[2])][0][2]
                gs[t] = min(gs.get(t, INF), gs[s] + c)
                depth[t] = min(depth.get(t, INF), depth[s] + 1)
                if t not in nov:
                    nov[t] = novelty(t)
                    if nov[t] is None:
                        pruned.add(t)
                        run.hit('pruned_states')
                    else:
                        open_.add(t)
        for s in closed:       # every applicable action of an expanded state was tried
            run.check({int(l[2]) for l in tr if l[0] == 'N' and int(l[1]) == s} == {a for a, _ in g[s]['acts']}, 'iw:incomplete-expansion', lambda: f'width {w} state {s} ' + ctx())
        final = w == len(widths)
        left = {t for t in open_ if not g[t]['goal'] and not g[t]['term'] and t not in solved}
        goals = {t for t in nov if nov[t] is not None and (g[t]['goal'] or t in solved)}
        if not final or not found:
            run.check(not goals, 'iw:misses-generated-goal', lambda: f'width {w} goals {goals} ' + ctx())
            run.check(not left, 'iw:leaves-open-states', lambda: f'width {w} open {left} ' + ctx())
            if final and not found:
                run.check(w == nf or not pruned, 'iw:gives-up-too-early', lambda: f'width {w} of {nf}, pruned {pruned} ' + ctx())
        elif exhaustive:
            run.check(not left, 'iw:leaves-open-states', lambda: f'width {w} open {left} ' + ctx())
            if not (goals & set(solved)):
                best = min((gs[t] for t in goals if g[t]['goal']), default=INF)
                run.check(value <= best + 1e-9 or order != 0, 'iw:keeps-worse-plan', lambda: f'value {value} best goal {best} ' + ctx())
        elif order == 0 and not solved:
            run.check(all(value <= gs[t] for t in left), 'iw:goal-before-better-state', lambda: f'value {value} open {[(t, gs[t]) for t in left]} ' + ctx())


def replay_bfws(run, g, root, trace, solved, found, ctx):
    seen = {}

    def novelty(s):
        h = g[s]['h']
        r = h not in seen
        fs = seen.setdefault(h, set())
        new = {(i, x) for i, x in enumerate(g[s]['f'])} - fs
        fs |= new
        return 0 if r else len(new) or len(g[s]['f']) + 1
    novs = {root: [novelty(root)]}
    open_, closed = {root}, set()
    last = None
    for l in trace:
        s = int(l[1])
        if l[0] == 'E':
            run.hit('expansions')
            if not run.check(s in open_ and not g[s]['goal'], 'bfws:expands-unexpected-state', lambda: f'state {s} open {open_} closed {closed} ' + ctx()):
                return
            for t in open_ - {s}:
                run.hit('order_checks')
                run.check(g[s]['h'] <= g[t]['h'], 'bfws:heuristic-order', lambda: f'state {s} before {t} ' + ctx())
                if g[s]['h'] == g[t]['h']:      # whichever of its generations gives a state its novelty
                    run.check(min(novs[s]) <= max(novs[t]), 'bfws:novelty-order', lambda: f'state {s} {novs[s]} before {t} {novs[t]} ' + ctx())
            open_.discard(s)
            closed.add(s)
            last = s
        else:
            t = int(l[3])
            if not run.check(s == last, 'bfws:transition-of-unexpanded-state', ctx):
                return
            if t not in closed:
                novs.setdefault(t, []).append(novelty(t))
                open_.add(t)
    for s in closed:
        run.check({int(l[2]) for l in trace if l[0] == 'N' and int(l[1]) == s} == {a for a, _ in g[s]['acts']}, 'bfws:incomplete-expansion', lambda: f'state {s} ' + ctx())
    goals = [t for t in novs if g[t]['goal'] or t in solved]
    if not found:
        run.check(not open_ and not goals, 'bfws:misses-generated-goal', lambda: f'{open_} {goals} ' + ctx())
    else:
        hg = min((g[t]['h'] for t in goals), default=INF)
        run.check(not closed or any(g[t]['goal'] or t in solved for t in open_), 'bfws:no-goal-generated', ctx)
        run.check(all(hg <= g[t]['h'] or t in goals for t in open_), 'bfws:heuristic-order', ctx)


def session(run, rng, name):
    low = name.lower()
    injective = rng.random() < .75
    g = featured(rng, injective)
    n = len(g)
    nf = len(g[0]['f'])
    for s in g:
        s['h'] = float(rng.choice([0, 1, 1, 2, 3])) if not s['goal'] or rng.random() < .2 else 0.0
        if name == 'BFWS' and s['term'] and not s['goal']:
            s['acts'] = []
    hashed = int(injective and rng.random() < .4)
    order = rng.choice([0, 0, 1, 2])
    exhaustive = name == 'IW' and rng.random() < .3
    params = {'hash': hashed, 'trace': int(not cppdrv.PAR), 'debug': rng.choice([0, 0, 1])}
    if name == 'IW':
        params.update(order=order, time=10 ** 9 if exhaustive else 0)
    ops, text_ops = [], []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        clear = k > 0 and rng.random() < .2
        s = rng.randrange(n)
        ops.append((clear, s))
        text_ops += (['clear'] if clear else []) + [f'solve {s}'] + [f'{o} {i}' for i in range(n) for o in ('query', 'act')]
    text = cppdrv.scenario(params, g, text_ops)
    lines = cppdrv.execute(run, BIN[name], text)
    if lines is None:
        return
    it = iter(split(lines))
    solved, fresh, best = set(), True, 0
    for k, (clear, s) in enumerate(ops):
        if clear:
            l = next(it)
            run.check(l[1] in ('0', '-1'), f'{low}:clear-keeps-nodes', lambda: str(l))
            solved, fresh = set(), True
        trace, sl, scores, q, acts = next(it)
        ctx = lambda: f'{name} op {k} start {s} answers={q} acts={acts} trace={" ".join("".join(x) if x[0] == "E" else "-".join(x[1:]) for x in trace)[:600]}\n{text}'
        if not run.check(sl[6] == 'ok', f'{low}:solve-throws', ctx):
            return
        if not fresh:
            run.hit('resolves')
        tag = f'{low}:' + ('first' if fresh else 'resolve')
        found = q[s][0] == '1'
        if g[s]['goal']:
            run.hit('goal_at_start')
            run.check(not trace, f'{tag}:searches-from-a-goal', ctx)
        elif s in solved:
            run.check(found and not trace, f'{tag}:forgets-solution', ctx)
        else:
            r = reachable(g, s)
            can = any(g[i]['goal'] for i in r) and not (g[s]['term'] and name == 'IW')
            if not can:
                run.hit('unsolvable')
                run.check(not found, f'{tag}:plan-for-unsolvable', ctx)
            elif injective or name == 'BFWS':
                run.check(found, f'{tag}:no-plan', ctx)
            value = float(q[s][1]) if found else INF
            if name == 'IW':
                if not g[s]['term'] and not cppdrv.PAR:
                    replay_iw(run, g, s, trace, order, solved, found, exhaustive, value, ctx)
            elif not cppdrv.PAR:
                replay_bfws(run, g, s, trace, solved, found, ctx)
            if found:
                r = follow(run, g, s, q, acts, None, tag)
                if r is None:
                    return
                cost, seq = r
                run.hit(low + '_plans')
                best = max(best, len(seq) - 1)
                if fresh or not exhaustive:
                    run.check(abs(cost - value) < 1e-9, f'{tag}:value', lambda: f'value {value} executed cost {cost} ' + ctx())
                if name == 'IW':
                    run.check(bool(scores) and scores == sorted(scores, reverse=True) and scores[-1] == value, f'{tag}:intermediate-scores', lambda: f'{scores} ' + ctx())
                    if exhaustive:
                        run.hit('exhaustive')
                run.check(all(not g[i]['term'] for i in seq[:-1]) or name == 'BFWS', f'{tag}:plan-through-terminal', ctx)
            elif name == 'IW':
                run.check(not scores, f'{tag}:intermediate-scores', lambda: f'{scores} ' + ctx())
        for i in range(n):      # nothing that was solved is lost, and every answer is executable
            if i in solved:
                run.check(q[i][0] == '1', f'{tag}:forgets-solution', lambda: f'state {i} ' + ctx())
            if q[i][0] == '1' and not g[i]['goal']:
                if follow(run, g, i, q, acts, None, tag + '-other') is None:
                    return
                solved.add(i)
        fresh = False
    run.case((name, n, injective, hashed, order, exhaustive, [len(s['acts']) for s in g], [s['f'] for s in g][:4], ops), best >= 2)


def iw(run, rng):
    session(run, rng, 'IW')


def bfws(run, rng):
    session(run, rng, 'BFWS')


GROUPS = [('iw', iw, 1600, 12000, None), ('bfws', bfws, 1200, 9000, None)]

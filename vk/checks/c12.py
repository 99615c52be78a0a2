"""C12 C++ A*: the real headers run under ASan+UBSan on random graphs; answers compared with Dijkstra."""
from vk import cppdrv
from vk.cppgraphs import *

RULE = 'random deterministic graphs (cycles, zero costs, parallel edges, dead ends, 0..3 goals), consistent heuristics, sequences of solve/clear from several starts on one solver object; non-trivial = optimal plan of at least 2 actions'
REQUIRED = {'optimal_plans': 300, 'unsolvable': 50, 'resolves': 100, 'plan_steps': 800, 'goal_at_start': 20, 'off_plan_states': 100, 'processes': 200}
ASSUMPTIONS = ['optimality is claimed for consistent heuristics (closed states are never reopened)', 'sequential execution policy']
BIN = {}


def setup(tier):
    BIN.update(cppdrv.build(['ASTAR']))


def parse(run, lines):
    """-> {state: (defined, value)} per batch of queries, in order"""
    return [l for l in lines]


def follow(run, g, start, q, acts, v, tag):
    """walk the policy from start; returns executed cost or None"""
    cost, s, seq = 0, start, [start]
    while not g[s]['goal']:
        if not run.check(q[s][0] == '1' and acts[s] is not None, f'{tag}:policy-undefined-on-plan', lambda: (seq, q[s], acts[s])):
            return None
        outs = acts_of(g, s).get(acts[s])
        if not run.check(outs is not None, f'{tag}:inapplicable-action', lambda: (s, acts[s])):
            return None
        (_, t, c), = outs
        cost += c
        s = t
        seq.append(s)
        run.hit('plan_steps')
        if not run.check(len(seq) <= len(g) + 1, f'{tag}:plan-loops', lambda: seq):
            return None
    return cost, seq


def astar(run, rng, big=False):
    g = det_graph(rng, n=rng.choice([30, 60, 120]) if big else None)
    v = ctg(g)
    kind = set_h(rng, g, v, ['zero', 'perfect', 'half', 'cap'])
    n = len(g)
    starts, ops, text_ops = [], [], []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        s = rng.randrange(n)
        clear = k > 0 and rng.random() < .2
        ops.append((clear, s))
        if clear:
            text_ops.append('clear')
        text_ops.append(f'solve {s}')
        for i in range(n):
            text_ops += [f'query {i}', f'act {i}']
    text = cppdrv.scenario({'debug': 0}, g, text_ops)
    lines = cppdrv.execute(run, BIN['ASTAR'], text)
    if lines is None:
        return
    it = iter(lines)
    best = 0
    fresh = True
    for k, (clear, s) in enumerate(ops):
        if clear:
            next(it)
            fresh = True
        sl = next(it)
        q, acts = [], []
        for i in range(n):
            ql, al = next(it), next(it)
            q.append((ql[2], ql[3]))
            acts.append(int(al[2]) if int(al[2]) >= 0 else None)
        ctx = lambda: f'op {k} start {s} h={kind} v={v} answers={q} acts={acts}\n{text}'
        if not run.check(sl[5] == '' or sl[6 if len(sl) > 6 else -1] != 'exc', 'solve-throws', ctx):
            return
        tag = 'first' if fresh else 'resolve'
        if not fresh:
            run.hit('resolves')
        if v[s] == INF:
            run.hit('unsolvable')
            run.check(q[s][0] == '0', 'plan-for-unsolvable', ctx)
        elif g[s]['goal']:
            run.hit('goal_at_start')
        else:
            r = follow(run, g, s, q, acts, v, tag)
            if r is None:
                run.fail(f'{tag}:no-plan-reaching-goal', ctx())
                return
            cost, seq = r
            run.check(abs(cost - v[s]) < 1e-9, f'{tag}:suboptimal', lambda: f'cost {cost} optimal {v[s]} ' + ctx())
            run.hit('optimal_plans')
            best = max(best, len(seq) - 1)
        for i in range(n):          # any state the solver claims solved carries an optimal value and an applicable action
            if q[i][0] == '1':
                run.check(abs(float(q[i][1]) - v[i]) < 1e-9, f'{tag}:value', lambda: f'state {i} value {q[i][1]} optimal {v[i]} ' + ctx())
                run.check(acts[i] in acts_of(g, i), f'{tag}:inapplicable-action', lambda: f'state {i} ' + ctx())
            else:
                run.hit('off_plan_states')
        fresh = False
    run.case((n, kind, [len(s['acts']) for s in g], v[:6], ops), best >= 2)


def large(run, rng):
    astar(run, rng, True)


GROUPS = [('astar', astar, 900, 9000, None), ('large', large, 100, 1500, None)]

"""C18 hub toy domains (Maze, SimpleGridWorld, MasterMind, RockPaperScissors): their models are the games they describe, from every state."""
from collections import Counter, deque

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

import numpy as np
from skdecide.hub.domain.maze import Maze
from skdecide.hub.domain.maze.maze import State as MS, Action as MA, DEFAULT_MAZE
from skdecide.hub.domain.simple_grid_world import SimpleGridWorld
from skdecide.hub.domain.simple_grid_world.simple_grid_world import State as GS, Action as GA
from skdecide.hub.domain.mastermind import MasterMind
from skdecide.hub.domain.mastermind.mastermind import State as KS, Score
from skdecide.hub.domain.rock_paper_scissors import RockPaperScissors
from skdecide.hub.domain.rock_paper_scissors.rock_paper_scissors import Move
from skdecide.hub.solver.lazy_astar import LazyAstar
from skdecide import EnvironmentOutcome

RULE = 'random mazes, grids, code-breaking games and move sequences; every transition of the smaller ones is checked against the rules of the game; non-trivial = at least 4 states'
REQUIRED = {'maze_moves': 10000, 'maze_walls': 1000, 'grid_moves': 5000, 'grid_borders': 500, 'scores': 5000, 'games': 60, 'rps_steps': 500, 'plans': 60, 'renders': 3}
ASSUMPTIONS = ['mazes are rectangles enclosed by walls except at the entrance and exit']
D4 = {'up': (0, -1), 'down': (0, 1), 'left': (-1, 0), 'right': (1, 0)}


def gen_maze(rng):
    h, w = rng.randint(1, 6), rng.randint(1, 6)
    rows = [['#'] * (2 * w + 1) for _ in range(2 * h + 1)]
    for y in range(h):
        for x in range(w):
            rows[2 * y + 1][2 * x + 1] = ' '
            if x + 1 < w and rng.random() < .7:
                rows[2 * y + 1][2 * x + 2] = ' '
            if y + 1 < h and rng.random() < .7:
                rows[2 * y + 2][2 * x + 1] = ' '
    cells = [(x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c == ' ']
    border = [(0, 2 * y + 1) for y in range(h)] + [(2 * w, 2 * y + 1) for y in range(h)] + [(2 * x + 1, 0) for x in range(w)] + [(2 * x + 1, 2 * h) for x in range(w)]
    s, g = rng.sample(cells + border, 2)
    rows[s[1]][s[0]] = 'o'
    rows[g[1]][g[0]] = 'x'
    for r in rows:
        for i, c in enumerate(r):
            if c == '#':
                r[i] = rng.choice('+-|#')
    return '\n'.join(''.join(r) for r in rows), [''.join(r) for r in rows], s, g


def bfs(s, nxt):
    d, q = {s: 0}, deque([s])
    while q:
        u = q.popleft()
        for v in nxt(u):
            if v not in d:
                d[v] = d[u] + 1
                q.append(v)
    return d


def plan_check(run, low, make, s, goal, dist, ctx):
    with LazyAstar(heuristic=None) as solver:
        dom = make()
        make_ = make
        dom.solve_with(solver, make_)
        run.hit('plans')
        if goal not in dist:
            run.check(not solver.is_policy_defined_for(s) if s != goal else True, f'{low}:plan-to-unreachable-goal', ctx)
            return
        cur, cost, k = s, 0, 0
        while not dom.is_goal(cur):
            if not run.check(solver.is_policy_defined_for(cur), f'{low}:no-plan', ctx):
                return
            a = solver.sample_action(cur)
            n = dom.get_next_state(cur, a)
            cost += dom.get_transition_value(cur, a, n).cost
            cur = n
            k += 1
            if k > 500:
                run.fail(f'{low}:endless-plan', ctx())
                return
        run.check(cost == dist[goal], f'{low}:plan-cost', lambda: f'{cost} {dist[goal]} {ctx()}')


def spaces(run, low, dom, actions):
    run.check(list(dom.get_action_space().get_elements()) == actions, f'{low}:actions')
    run.check(list(dom.get_applicable_actions(dom.get_initial_state()).get_elements()) == actions, f'{low}:applicable-actions')


def maze(run, rng):
    txt, rows, s, g = gen_maze(rng)
    if rng.random() < .05:
        txt = DEFAULT_MAZE
        rows = txt.strip().split('\n')
        s = next((x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c == 'o')
        g = next((x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c == 'x')
        dom = Maze()
    else:
        dom = Maze(rng.choice(['', '\n', '\n\n']) + txt + rng.choice(['', '\n']))
    ctx = lambda: '\n' + '\n'.join(rows)
    run.check(dom.get_initial_state() == MS(*s), 'maze:start', ctx)
    spaces(run, 'maze', dom, list(MA))
    free = {(x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c in ' ox'}
    osp = dom.get_observation_space()
    gl = dom.get_goals()
    def nxt(u):
        for dx, dy in D4.values():
            v = (u[0] + dx, u[1] + dy)
            if v in free:
                yield v
    for (x, y) in free:
        st = MS(x, y)
        run.check(osp.contains(st), 'maze:observation-space', ctx)
        run.check(gl.contains(st) == ((x, y) == g) and dom.is_goal(st) == ((x, y) == g) and dom.is_terminal(st) == ((x, y) == g), 'maze:goal', ctx)
        for a in MA:
            dx, dy = D4[a.name]
            want = (x + dx, y + dy) if (x + dx, y + dy) in free else (x, y)
            t = dom.get_next_state(st, a)
            run.hit('maze_moves')
            if want == (x, y):
                run.hit('maze_walls')
            run.check(tuple(t) == want and isinstance(t, MS), 'maze:next-state', lambda: f'{st} {a} -> {t} instead of {want} {ctx()}')
            v = dom.get_transition_value(st, a, t)
            run.check(v.cost == (2 if want == (x, y) else 1) and v.reward == -v.cost, 'maze:cost', lambda: f'{v} {ctx()}')
    if rng.random() < .4:
        plan_check(run, 'maze', (lambda: Maze(txt)), MS(*s), MS(*g), {MS(*k): v for k, v in bfs(s, nxt).items()}, ctx)
    if rng.random() < .12:
        run.hit('renders')
        dom.reset()
        dom.render()
        dom.render()
        plt.close('all')
    run.case(rows, len(free) >= 4)


def grid(run, rng):
    w, h = rng.randint(1, 8), rng.randint(1, 8)
    dom = SimpleGridWorld(w, h) if (w, h) != (10, 10) else SimpleGridWorld()
    ctx = lambda: f'{w}x{h}'
    run.check(dom.get_initial_state() == GS(0, 0), 'grid:start', ctx)
    spaces(run, 'grid', dom, list(GA))
    for x in range(w):
        for y in range(h):
            st = GS(x, y)
            end = (x, y) == (w - 1, h - 1)
            run.check(dom.get_observation_space().contains(st), 'grid:observation-space', ctx)
            run.check(dom.is_goal(st) == end and dom.is_terminal(st) == end, 'grid:goal', ctx)
            for a in GA:
                dx, dy = D4[a.name]
                want = (x + dx, y + dy) if 0 <= x + dx < w and 0 <= y + dy < h else (x, y)
                t = dom.get_next_state(st, a)
                run.hit('grid_moves')
                if want == (x, y):
                    run.hit('grid_borders')
                run.check(tuple(t) == want, 'grid:next-state', lambda: f'{st} {a} -> {t} instead of {want} {ctx()}')
                run.check(dom.get_transition_value(st, a, t).cost == (2 if want == (x, y) else 1), 'grid:cost', ctx)
    run.check(not dom.get_observation_space().contains(GS(w, 0)) and not dom.get_observation_space().contains(GS(0, h)), 'grid:observation-space', ctx)
    if rng.random() < .4:
        plan_check(run, 'grid', lambda: SimpleGridWorld(w, h), GS(0, 0), GS(w - 1, h - 1), {GS(w - 1, h - 1): w + h - 2}, ctx)
    run.case((w, h), w * h >= 4)


def score(sol, guess):
    bulls = sum(a == b for a, b in zip(sol, guess))
    return (bulls, sum((Counter(sol) & Counter(guess)).values()) - bulls)


def mastermind(run, rng):
    c, p = rng.choice([(1, 1), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (2, 4), (3, 4), (5, 2), (4, 4)])
    dom = MasterMind(n_colours=c, n_positions=p)
    ctx = lambda: f'{c} colours {p} positions'
    acts = list(dom.get_action_space().get_elements())
    run.check(len(acts) == c ** p == len(set(acts)) and all(len(a) == p and all(0 <= x < c for x in a) for a in acts), 'mastermind:actions', ctx)
    init = dom.get_initial_state_distribution().get_values()
    run.check(len(init) == c ** p and {s.solution for s, q in init} == set(acts) and all(abs(q * c ** p - 1) < 1e-9 and s.score == (0, 0) for s, q in init), 'mastermind:initial-states', ctx)
    osp = dom.get_observation_space()
    run.check(all(osp.contains(np.array(x)) == ok for x, ok in (((p, p), True), ((p + 1, 0), False), ((0, p + 1), False))), 'mastermind:observation-space', lambda: f'{osp.unwrapped()} {p}')
    pairs = [(a, b) for a in acts for b in acts] if c ** p <= 27 else [(rng.choice(acts), rng.choice(acts)) for _ in range(300)]
    for sol, guess in pairs:
        st = KS(sol, Score(rng.randint(0, p), 0))
        t = dom.get_next_state(st, guess)
        want = score(sol, guess)
        run.hit('scores')
        run.check(t.solution == sol and tuple(t.score) == want, 'mastermind:score', lambda: f'{sol} {guess} -> {t} instead of {want}')
        o = dom.get_observation(t, guess)
        run.check(tuple(o) == want and osp.contains(o), 'mastermind:observation', lambda: f'{sol} {guess} -> {o} instead of {want} {ctx()}')
        d = dom.get_observation_distribution(t, guess).get_values()
        run.check([(tuple(x), q) for x, q in d] == [(want, 1.0)], 'mastermind:observation', lambda: f'{d}')
        win = sol == guess
        run.check(dom.is_terminal(t) == win and dom.is_goal(o) == win, 'mastermind:goal', lambda: f'{sol} {guess} {t}')
        run.check(dom.get_transition_value(st, guess).cost == 1, 'mastermind:cost')
    # a game: the observations of a hidden solution never exclude it, winning ends it
    o = dom.reset()
    cons = list(acts)
    run.check(tuple(o) == (0, 0), 'mastermind:first-observation', lambda: f'{o}')
    for k in range(c ** p):
        g = rng.choice(cons)
        out = dom.step(g)
        cons = [s for s in cons if score(s, g) == tuple(out.observation)]
        run.check(cons, 'mastermind:inconsistent-answers', ctx)
        run.check(out.termination == (tuple(out.observation) == (p, 0)), 'mastermind:termination', lambda: f'{out}')
        if out.termination:
            break
        cons = [s for s in cons if s != g]
        run.check(cons, 'mastermind:inconsistent-answers', ctx)
    run.check(out.termination, 'mastermind:never-won', ctx)
    run.hit('games')
    run.case((c, p, g), c ** p >= 4)


def rps(run, rng):
    m = rng.choice([1, 2, 5, 10])
    dom = RockPaperScissors(max_moves=m) if m != 10 else RockPaperScissors()
    beats = {('rock', 'scissors'), ('scissors', 'paper'), ('paper', 'rock')}
    for ag in ('player1', 'player2'):
        run.check(list(dom.get_action_space()[ag].get_elements()) == list(Move), 'rps:actions')
    for ep in range(2):
        o = dom.reset()
        run.check(set(o) == {'player1', 'player2'} and all(dom.get_observation_space()[k].contains(v) for k, v in o.items()), 'rps:reset', lambda: f'{o}')
        k = 0
        while True:
            a = {'player1': rng.choice(list(Move)), 'player2': rng.choice(list(Move))}
            if rng.random() < .5:
                a = dict(reversed(list(a.items())))
            out = dom.step(a)
            k += 1
            run.hit('rps_steps')
            m1, m2 = a['player1'].name, a['player2'].name
            r = 1 if (m1, m2) in beats else -1 if (m2, m1) in beats else 0
            run.check(out.value['player1'].reward == r and out.value['player2'].reward == -r, 'rps:reward', lambda: f'{a} {out.value}')
            run.check(out.observation == {'player1': a['player2'], 'player2': a['player1']}, 'rps:observation', lambda: f'{a} {out.observation}')
            t = out.termination
            t = t if isinstance(t, bool) else all(t.values()) if isinstance(t, dict) else bool(t)
            run.check(t == (k >= m), 'rps:termination', lambda: f'move {k} of {m}: {out.termination}')
            if t or k > 20:
                break
    run.case((m, k, a), m > 1)


GROUPS = [('maze', maze, 120, 1200, None), ('grid', grid, 120, 1000, None), ('mastermind', mastermind, 100, 800, None), ('rps', rps, 100, 800, None)]

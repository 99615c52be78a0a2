"""C17 hub.domain.gym: wrapping a Gym environment as a domain (and back) changes nothing in its behaviour; features and discretized actions are faithful."""
import contextlib
import io
import itertools
from copy import deepcopy
from enum import Enum

import gym
import gym.spaces as gs
import numpy as np

from skdecide import Domain, TransitionOutcome, TransitionValue
from skdecide.builders.domain import *
from skdecide.hub.domain.gym import (GymDomain, GymDomainHashable, DeterministicInitializedGymDomain, GymWidthDomain, GymDiscreteActionDomain, DeterministicGymDomain,
                                     CostDeterministicGymDomain, GymPlanningDomain, AsGymEnv)
from skdecide.hub.space.gym import EnumSpace, ListSpace, DataSpace, BoxSpace, DiscreteSpace, GymSpace
from vk.checks.c16 import raw, same

RULE = ('random deterministic Gym environments over every kind of observation and action space, executed through every wrapper in random orders (trees, replays, interleavings) '
        'and compared with a fresh environment replaying the same actions; non-trivial = at least 3 steps')
REQUIRED = {'steps': 3000, 'tree_expansions': 2000, 'replays': 300, 'goals': 300, 'asgym_steps': 1000, 'asgym_enum': 60, 'binary': 500, 'bee1': 300, 'bee2': 300, 'bee-exact': 1000, 'restarts': 100, 'elliptical': 200, 'discretized': 300,
            'box_multidim': 30, 'dict_actions': 20, 'deepcopy_mode': 80, 'setstate_mode': 80, 'terminal': 100}
ASSUMPTIONS = ['environments follow the Gym API the wrappers are written for (4 results of step, reset returns the observation)', 'deterministic environments where the wrapper requires it']


def key(x):
    if isinstance(x, np.ndarray):
        return tuple(x.ravel().tolist())
    if isinstance(x, dict):
        return tuple((k, key(v)) for k, v in sorted(x.items()))
    if isinstance(x, (tuple, list)):
        return tuple(key(v) for v in x)
    return x.item() if hasattr(x, 'item') else x


def mix(*a):
    h = 1469598103
    for x in repr(a).encode():
        h = ((h ^ x) * 1099511628211) & ((1 << 61) - 1)
    return h


class Env(gym.Env):
    """deterministic environment: the state is an integer, the observation a member of the space drawn from it"""
    metadata = {}

    def __init__(self, obs, nstates, aspace, seed, term):
        self.observation_space, self.action_space = obs
        self.action_space = aspace
        self.n, self.seed_, self.term = nstates, seed, term
        self.observation_space = obs[0]
        self.table = obs[1]
        self.s = 0
        self.resets = 0

    def reset(self):
        self.s = 0
        self.resets += 1
        return self.table[0]

    def step(self, action):
        r = mix(self.seed_, self.s, key(action))
        self.s = r % self.n
        return self.table[self.s], float((r >> 20) % 7 - 3), self.s in self.term, {'s': self.s}


def get_state(e):
    return e.s


def set_state(e, s):
    e.s = s


def near(rng, x):
    """x with one number replaced by the closest different one (None if x has no floating-point number)"""
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.size:
        y = x.copy()
        i = rng.randrange(y.size)
        y.flat[i] = np.nextafter(y.flat[i], y.dtype.type(0 if y.flat[i] else 1))
        return y
    if isinstance(x, tuple):
        for i in rng.sample(range(len(x)), len(x)):
            y = near(rng, x[i])
            if y is not None:
                return x[:i] + (y,) + x[i + 1:]
    if isinstance(x, dict):
        for k in rng.sample(sorted(x), len(x)):
            y = near(rng, x[k])
            if y is not None:
                return {**x, k: y}
    return None


def mkenv(rng, distinct=False, kinds=None):
    while True:
        g, mk, _ = raw(rng)
        if kinds is None or isinstance(g, kinds):
            break
    n = rng.randint(2, 12)
    table = []
    for _ in range(n * 20):
        x = mk()
        if not distinct or not any(same(x, y) for y in table):
            table.append(x)
        if len(table) == n:
            break
    if rng.random() < .3:                                               # observations that hardly differ
        y = near(rng, rng.choice(table))
        if y is not None and g.contains(y) and not any(same(y, x) for x in table):
            table[rng.randrange(len(table))] = y
    n = len(table)
    a, mka, _ = raw(rng)
    a.seed(rng.randrange(1 << 30))
    g.seed(rng.randrange(1 << 30))
    term = {i for i in range(1, n) if rng.random() < .15}
    seed = rng.randrange(1 << 30)
    return lambda: Env((g, table), n, a, seed, term), mka, g


def replay(mk, acts):
    e = mk()
    out = [e.reset()]
    res = []
    for a in acts:
        o, r, d, i = e.step(a)
        out.append(o)
        res.append((r, d, i))
    return out, res


def unproxy(x):
    return getattr(x, '_state', x)


def wrap(run, rng):
    mk, mka, g = mkenv(rng)
    cls = rng.choice([GymDomain, GymDomainHashable])
    dom = cls(mk())
    low = cls.__name__
    run.check(dom.get_action_space().unwrapped() == dom.unwrapped().action_space and dom.get_observation_space().unwrapped() == g, f'{low}:spaces')
    states = {}
    for ep in range(rng.randint(1, 3)):
        acts = []
        o = dom.reset()
        first = o
        for _ in range(rng.randint(1, 8)):
            a = mka() if rng.random() < .5 else dom.get_action_space().sample()
            run.check(dom.get_applicable_actions().contains(a), f'{low}:action-not-applicable', lambda: f'{a}')
            out = dom.step(a)
            acts.append(a)
            run.hit('steps')
            obs, res = replay(mk, acts)
            run.check(same(unproxy(out.observation), obs[-1]) and out.value.reward == res[-1][0] and out.termination == res[-1][1] and out.info == res[-1][2], f'{low}:step', lambda: f'{out} {obs[-1]} {res[-1]}')
            run.check(same(unproxy(first), obs[0]), f'{low}:reset', lambda: f'{first}')
            if cls is GymDomainHashable:
                p = out.observation
                k = key(obs[-1])
                q = states.setdefault(k, p)
                run.check(q == p and hash(q) == hash(p) and len({q, p}) == 1, f'{low}:equal-states-differ', lambda: f'{p} {q}')
                for k2, q2 in states.items():
                    run.check(k2 == k or not (q2 == p), f'{low}:different-states-equal', lambda: f'{p} {q2}')
            if res[-1][1]:
                run.hit('terminal')
                break
    run.case((low, repr(g), len(acts)), len(acts) >= 3)


def ways(run, rng):
    if rng.random() < .5:
        run.hit('deepcopy_mode')
        return {}
    run.hit('setstate_mode')
    return {'set_state': set_state, 'get_state': get_state}


def detinit(run, rng):
    mk, mka, g = mkenv(rng)
    dom = DeterministicInitializedGymDomain(mk(), **ways(run, rng))
    plans = [[mka() for _ in range(rng.randint(1, 6))] for _ in range(3)]
    n = 0
    first = None
    for ep in range(rng.randint(2, 6)):
        if ep == 0 or rng.random() < .7:
            o = dom.reset()
            run.check(same(unproxy(o), mk().table[0]), 'detinit:reset', lambda: f'{o}')
            if first is None:
                first = dom.get_initial_state()
                run.check(same(unproxy(first), mk().table[0]), 'detinit:initial-state', lambda: f'{first}')
                dom.reset()
        else:
            dom.set_memory(first)      # start again from the initial state
        plan = rng.choice(plans)
        obs, res = replay(mk, plan)
        for k, a in enumerate(plan):
            out = dom.step(a)
            run.hit('steps')
            n += 1
            run.check(same(unproxy(out.observation), obs[k + 1]) and out.value.reward == res[k][0] and out.termination == res[k][1], 'detinit:replay', lambda: f'step {k} of {plan}: {out.observation} {obs[k + 1]}')
        run.hit('replays')
    run.case((repr(g), n), n >= 3)


def det(run, rng, planning=False):
    mk, mka, g = mkenv(rng)
    kw = ways(run, rng)
    with contextlib.redirect_stdout(io.StringIO()):
        if planning:
            maxd, tig = rng.choice([1, 2, 3, 6]), rng.random() < .5
            dom = GymPlanningDomain(mk(), termination_is_goal=tig, max_depth=maxd, **kw)
            low = 'planning'
        else:
            dom = rng.choice([DeterministicGymDomain, CostDeterministicGymDomain])(mk(), **kw)
            low = 'deterministic'
        root = dom.get_initial_state()
        run.check(same(unproxy(root), mk().table[0]) and not dom.is_terminal(root), f'{low}:initial-state', lambda: f'{root}')
        nodes = [(root, [])]
        pool = [mka() for _ in range(3)]
        for _ in range(rng.randint(4, 14)):
            s, acts = rng.choice(nodes)
            a = rng.choice(pool)
            obs, res = replay(mk, acts + [a])
            t = dom.get_next_state(s, a)
            run.hit('tree_expansions')
            ctx = lambda: f'{low} {kw.keys()} after {acts} action {a}: {t} expected {obs[-1]} {res[-1]}'
            run.check(same(unproxy(t), obs[-1]), f'{low}:next-state', ctx)
            v = dom.get_transition_value(s, a, t)
            run.check(v.reward == res[-1][0], f'{low}:value', lambda: f'{v} {ctx()}')
            run.check(dom.is_terminal(t) == res[-1][1], f'{low}:terminal', ctx)
            if res[-1][1]:
                run.hit('terminal')
            if planning:
                want = len(acts) + 1 >= maxd or (tig and res[-1][1])
                run.hit('goals')
                run.check(dom.get_goals().contains(t) == want and dom.is_goal(t) == want, 'planning:goal', lambda: f'max depth {maxd} termination is goal {tig} {ctx()}')
            if not res[-1][1]:
                nodes.append((t, acts + [a]))
            if rng.random() < .2:      # executing from a state is the same as querying the model
                out = dom.sample(s, a)
                run.check(same(unproxy(out.observation), obs[-1]) and out.value.reward == res[-1][0] and out.termination == res[-1][1], f'{low}:sample', ctx)
        acts = []
        dom.reset()
        for _ in range(4):
            a = rng.choice(pool)
            acts.append(a)
            obs, res = replay(mk, acts)
            out = dom.step(a)
            run.hit('steps')
            run.check(same(unproxy(out.observation), obs[-1]) and out.value.reward == res[-1][0] and out.termination == res[-1][1], f'{low}:step', lambda: f'{acts} {out} {obs[-1]} {res[-1]}')
            if res[-1][1]:
                break
    run.case((low, repr(g), len(nodes)), len(nodes) > 3)


def planning(run, rng):
    det(run, rng, True)


def asgym(run, rng):
    n = rng.randint(2, 7)
    kind = rng.choice(['enum', 'enum', 'list', 'disc', 'box'])
    mkspace = lambda k, n: {'enum': lambda: EnumSpace(Enum('E', {f'e{i}': 10 * i for i in range(n)})), 'list': lambda: ListSpace([f's{i}' for i in range(n)]),
                            'disc': lambda: DiscreteSpace(n), 'box': lambda: BoxSpace(-1., 1., (2,), np.float64)}[k]()
    osp = mkspace(kind, n)
    k2 = rng.choice(['enum', 'list', 'disc'])
    m = rng.randint(1, 4)
    asp = mkspace(k2, m)
    els = lambda k, sp, n: list(sp.get_elements()) if k in ('enum', 'list') else list(range(n)) if k == 'disc' else [np.array([i / n, -i / n]) for i in range(n)]
    S, A = els(kind, osp, n), els(k2, asp, m)
    T = {(i, j): (rng.randrange(n), float(rng.randint(-5, 5)), rng.random() < .1) for i in range(n) for j in range(m)}
    info = rng.choice([None, {'k': 1}])

    class Dm(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, FullyObservable, Renderable, Rewards):
        def _state_reset(self):
            self.i = 0
            return S[0]
        def _state_step(self, a):
            j = next(k for k, x in enumerate(A) if same(x, a) and type(x) == type(a) or x is a)
            self.i, r, d = T[self.i, j]
            return TransitionOutcome(state=S[self.i], value=TransitionValue(reward=r), termination=d, info=info)
        def _get_action_space_(self): return asp
        def _get_observation_space_(self): return osp
        def _render_from(self, memory, **kw): return 'drawn'
        def close(self): self.closed = True
    unwrap = rng.random() < .6
    dom = Dm()
    env = AsGymEnv(dom, unwrap_spaces=unwrap) if rng.random() < .7 or not unwrap else AsGymEnv(dom)
    if unwrap:
        run.check(env.observation_space is osp.unwrapped() and env.action_space is asp.unwrapped(), 'asgym:spaces')
        O, B = list(osp.to_unwrapped(S)), list(asp.to_unwrapped(A))
    else:
        run.check(env.observation_space is osp and env.action_space is asp, 'asgym:spaces')
        O, B = S, A
    if kind == 'enum':
        run.hit('asgym_enum')
    ctx = f'{kind} {k2} unwrap {unwrap}'
    steps = 0
    for ep in range(rng.randint(1, 3)):
        i = 0
        o = env.reset()
        run.check(same(o, O[0]) and env.observation_space.contains(o), 'asgym:reset', lambda: f'{o!r} instead of {O[0]!r} {ctx}')
        for _ in range(6):
            j = rng.randrange(m)
            b = B[j]
            run.check(env.action_space.contains(b), 'asgym:action-space', lambda: f'{b} {ctx}')
            o, r, d, inf = env.step(b)
            i, wr, wd = T[i, j]
            steps += 1
            run.hit('asgym_steps')
            run.check(same(o, O[i]) and env.observation_space.contains(o) and r == wr and bool(d) == wd and inf == (info or {}), 'asgym:step', lambda: f'{(o, r, d, inf)} instead of {(O[i], wr, wd, info)} {ctx}')
            if d:
                run.hit('terminal')
                break
    run.check(env.render() == 'drawn', 'asgym:render')
    env.close()
    run.check(dom.closed, 'asgym:close')
    run.case((ctx, sorted(T.items())[:3]), steps >= 3)


class W(DeterministicGymDomain, GymWidthDomain):
    def __init__(self, env, fidelity=1):
        DeterministicGymDomain.__init__(self, env)
        GymWidthDomain.__init__(self, fidelity)


def width(run, rng):
    mk, mka, g = mkenv(rng, distinct=True)
    fid = rng.choice([1, 1, 1, 2, 3])
    env = mk()
    dom = W(env, fid)
    ctx = f'{g} fidelity {fid}'
    table = [x for x in env.table]
    cells = lambda x: [] if not np.ndim(x) and not isinstance(x, (dict, tuple)) else x
    # binary features: one fixed-size bit vector per state, different states have different vectors (up to float32)
    nb = dom.nb_of_binary_features()
    vec = {}
    wide = 'float64' in str([s.dtype for s in leaves(g)]) or any(s.dtype == np.float64 for s in leaves(g))
    for x in table:
        v = dom.binary_features(x)
        run.hit('binary')
        run.check(len(v) == nb and all(isinstance(b, (bool, np.bool_)) for b in v), 'width:binary-size', lambda: f'{len(v)} {nb} {ctx}')
        run.check(list(dom.binary_features(x)) == list(v), 'width:binary-unstable', ctx)
        k = tuple(bool(b) for b in v)
        if not wide and all(abs(c) < 2 ** 24 for c in flat(g, x)):
            run.check(k not in vec, 'width:binary-collision', lambda: f'{x} and {vec.get(k)} {ctx}')
        vec[k] = x
    for name, f in (('bee1', dom.bee1_features), ('bee2', dom.bee2_features)):
        dom._reset_features()
        seen = {}
        size = None
        for _ in range(12):
            i = rng.randrange(len(table))
            v = list(f(table[i]))
            run.hit(name)
            run.check(size is None or len(v) == size, f'width:{name}-size', lambda: f'{len(v)} {size} {ctx}')
            size = len(v)
            if fid == 1:
                run.check(seen.setdefault(i, v) == v, f'width:{name}-unstable', lambda: f'{table[i]}: {seen[i]} then {v} {ctx}')
        if fid == 1:
            boxes = boxcells(g)
            now = {i: list(f(table[i])) for i in seen}
            for i, j in itertools.combinations(now, 2):
                a, b = flat(g, table[i]), flat(g, table[j])
                run.check(len(a) == len(now[i]), f'width:{name}-size', lambda: f'{len(a)} cells, features {now[i]} {ctx}')
                for c in range(len(a)):
                    p, q = now[i][c], now[j][c]
                    if not boxes[c]:
                        run.check(p == a[c] and q == b[c], f'width:{name}-discrete', ctx)
                    elif a[c] == b[c]:
                        run.check(p == q, f'width:{name}-equal-cells', lambda: f'{a[c]} {p} {q} {ctx}')
                    elif name == 'bee1':
                        run.check((a[c] <= b[c]) == (p <= q) or p == q, 'width:bee1-not-monotone', lambda: f'{a[c]} {b[c]} -> {p} {q} {ctx}')
    run.case((ctx, len(table)), len(table) > 2)


def bee1_oracle(records, ref, c, f):
    """records: tree of extensions of one side of one variable"""
    if not f:
        return []
    sign, node = records['sign'], records['root']
    out = []
    for lev in range(f):
        delta = sign * (c - node['ref'])
        i = sum(1 for x in node['inc'] if x < delta)
        out.append(sign * i)
        if i == len(node['inc']):
            node['kids'].append({'ref': node['ref'] + sign * node['inc'][-1], 'inc': [0], 'kids': []})
            node['inc'].append(delta)
            return out + [0] * (f - lev - 1)
        if i:
            node = node['kids'][i - 1]
    return out


def bee2_oracle(node, c, f):
    if not node:
        node += [(c, c, [])]
        return [0] + [-1] * (f - 1)
    lo, hi = min(a for a, _, _ in node), max(b for _, b, _ in node)
    if c < lo or c > hi:
        node.append((c, lo, []) if c < lo else (hi, c, []))
        return [len(node) - 1] + [-1] * (f - 1)
    k = next(k for k, (a, b, _) in enumerate(node) if a <= c <= b)
    return [k] + (bee2_oracle(node[k][2], c, f - 1) if f > 1 else [])


def bee(run, rng):
    """boundary extension encodings of any fidelity against their definition; planning domains start over from the initial state"""
    fid = rng.choice([1, 2, 3, 4])
    r = np.random.default_rng(rng.randrange(1 << 30))
    d = rng.randint(1, 3)
    pts = [np.round(r.uniform(-8, 8, d), rng.choice([0, 1, 6])) for _ in range(rng.randint(2, 9))]
    box = gs.Box(-8., 8., (d,), np.float64)
    disc = rng.random() < .4
    g = gs.Tuple([box, gs.Discrete(5), gs.Box(-8., 8., (1, 1), np.float64)]) if disc else box
    table = [(p, i % 5, np.array([[p[0] / 2]])) for i, p in enumerate(pts)] if disc else pts
    cells = lambda x: list(x[0]) + [x[2][0, 0]] if disc else list(x)
    dom = W(Env((g, table), len(table), gs.Discrete(2), rng.randrange(99), set()), fid)
    ctx = lambda: f'fidelity {fid} {[list(map(float, cells(x))) for x in table]} {log}'
    for name in ('bee1', 'bee2'):
        dom._reset_features()
        f = getattr(dom, name + '_features')
        log = [rng.randrange(len(table)) for _ in range(rng.randint(1, 20))]
        ref = cells(table[log[0]])
        one = [{s: {'sign': s, 'root': {'ref': c, 'inc': [0], 'kids': []}} for s in (1, -1)} for c in ref]
        two = [[] for _ in ref]
        for k, c in enumerate(ref):
            bee2_oracle(two[k], c, 1)
        for i in log:
            want = []
            for k, c in enumerate(cells(table[i])):
                if disc and k == d:
                    want.append(table[i][1])
                want += bee1_oracle(one[k][1 if c > ref[k] else -1], ref[k], c, fid) if name == 'bee1' else bee2_oracle(two[k], c, fid)
            got = list(f(table[i]))
            run.hit('bee-exact')
            if not run.check([float(x) for x in got] == [float(x) for x in want], f'width:{name}-definition', lambda: f'{got} {want} {ctx()}'):
                break
    # a planning domain forgets the extensions whenever the search starts over from the initial state
    env = Env((g, table), len(table), gs.Discrete(2), rng.randrange(99), set())

    class P(GymPlanningDomain, GymWidthDomain):
        def __init__(self):
            GymPlanningDomain.__init__(self, env, set_state, get_state, max_depth=9)
            GymWidthDomain.__init__(self, fid)
    with contextlib.redirect_stdout(io.StringIO()):
        pd = P()
        s0 = pd.get_initial_state()
        moved, w = True, None               # expanded other states since the last start
        for _ in range(rng.randint(2, 4)):
            s = s0
            for k in range(rng.randint(1, 6)):
                nx = pd.get_next_state(s, rng.randrange(2))
                if k == 0 and not same(nx._state, table[0]):
                    pd.get_next_state(s0, 0)            # several expansions of the initial state are one start
                    if moved:
                        w = W(Env((g, table), len(table), gs.Discrete(2), 0, set()), fid)
                    moved = False
                    run.check(list(pd.bee1_features(s0)) == list(w.bee1_features(table[0])) and list(pd.bee1_features(nx)) == list(w.bee1_features(nx._state)), 'width:restart', ctx)
                    pd.get_next_state(s0, 1)
                    run.check(list(pd.bee1_features(nx)) == list(w.bee1_features(nx._state)), 'width:restart-twice', ctx)
                    run.hit('restarts')
                elif k:
                    moved = True
                    pd.bee1_features(nx)
                if same(nx._state, table[0]):
                    break
                s = nx
    run.case((fid, repr(table)), len(table) > 2)


def leaves(g):
    if isinstance(g, gs.Tuple):
        return [l for s in g.spaces for l in leaves(s)]
    if isinstance(g, gs.Dict):
        return [l for s in g.spaces.values() for l in leaves(s)]
    return [g]


def flat(g, x):
    if isinstance(g, gs.Tuple):
        return [c for s, y in zip(g.spaces, x) for c in flat(s, y)]
    if isinstance(g, gs.Dict):
        return [c for k, s in g.spaces.items() for c in flat(s, x[k])]
    if isinstance(g, gs.Discrete):
        return [x]
    return np.asarray(x).ravel().tolist()


def boxcells(g):
    return [isinstance(l, gs.Box) for l in leaves(g) for _ in range(1 if isinstance(l, gs.Discrete) else int(np.prod(l.shape)))]


def elliptical(run, rng):
    d = rng.randint(2, 4)
    lo, hi = -100., 100.
    r = np.random.default_rng(rng.randrange(1 << 30))
    pt = lambda: r.uniform(lo, hi, d)
    x0, xG = pt(), pt()
    if rng.random() < .1:
        xG = x0 + .01
    dom = W(Env((gs.Box(lo, hi, (d,), np.float64), [x0]), 1, gs.Discrete(2), 0, set()))
    dom.init_elliptical_features(x0, xG)
    f0, fG = dom.elliptical_features(x0), dom.elliptical_features(xG)
    pairs = list(itertools.combinations(range(d), 2))
    run.check(len(f0) == len(pairs) == len(fG), 'elliptical:size', lambda: f'{f0}')
    run.check(all(x == 0 for x in fG), 'elliptical:goal-not-zero', lambda: f'{fG}')
    pts = [x0, xG] + [xG + t * (pt() - xG) for t in (0.02, .1, .3, .5, .8, 1.) for _ in range(2)]
    fs = [dom.elliptical_features(p) for p in pts]
    for k, (i, j) in enumerate(pairs):
        dist = [np.hypot(p[i] - xG[i], p[j] - xG[j]) for p in pts]
        for a, b in itertools.permutations(range(len(pts)), 2):
            run.hit('elliptical')
            run.check(dist[a] >= dist[b] or fs[a][k] <= fs[b][k], 'elliptical:not-monotone', lambda: f'distances {dist[a]} {dist[b]} features {fs[a][k]} {fs[b][k]} {x0} {xG}')
    run.case((x0.tolist(), xG.tolist()), True)


class DA(DeterministicGymDomain, GymDiscreteActionDomain):
    def __init__(self, env, **kw):
        DeterministicGymDomain.__init__(self, env)
        GymDiscreteActionDomain.__init__(self, **kw)


def count(g, f):
    if isinstance(g, gs.Tuple):
        return int(np.prod([count(s, f) for s in g.spaces]))
    if isinstance(g, gs.Dict):
        return int(np.prod([count(s, f) for s in g.spaces.values()]))
    if isinstance(g, gs.Box):
        return f ** int(np.prod(g.shape))
    if isinstance(g, gs.Discrete):
        return int(g.n)
    if isinstance(g, gs.MultiDiscrete):
        return int(np.prod(g.nvec))
    return 2 ** int(np.prod(g.shape))


def discretize(run, rng):
    f = rng.choice([1, 2, 3, 5])
    for _ in range(50):
        g, mk, _ = raw(rng)
        if count(g, f) <= 600:
            break
    run.require(count(g, f) <= 600)
    unb = False
    if rng.random() < .1:
        unb = True
        g = gs.Box(-np.inf, rng.choice([np.inf, 3.]), (2,), np.float64)
    kw = {}
    b = rng.choice([None, None, 1, 3, 1000])
    if b:
        kw['branching_factor'] = b
    dom = DA(Env((gs.Discrete(2), [0, 1]), 2, g, 0, set()), discretization_factor=f, **kw)
    sp = dom.get_applicable_actions(dom.get_initial_state())
    els = list(sp.get_elements())
    ctx = lambda: f'{g} factor {f} branching {b}: {els[:6]}'
    run.hit('discretized')
    n = count(g, f)
    run.check(len(els) == (n if b is None else min(n, b)), 'discretize:number-of-actions', lambda: f'{len(els)} instead of {n} {ctx()}')
    for e in els:
        run.check(g.contains(e), 'discretize:action-out-of-space', lambda: f'{e!r} {ctx()}')
    if any(isinstance(l, gs.Box) and np.prod(l.shape) > 1 for l in leaves(g)):
        run.hit('box_multidim')
    if isinstance(g, gs.Dict):
        run.hit('dict_actions')
    if not any(isinstance(l, gs.Box) for l in leaves(g)):       # discrete: every action, once
        ks = [key(e) for e in els]
        run.check(len(set(map(repr, ks))) == len(ks), 'discretize:duplicate-action', ctx)
    if isinstance(g, gs.Box) and not unb and g.dtype.kind == 'f' and b is None and f > 1:     # a regular grid, bounds included
        want = [np.linspace(l, h, f) for l, h in zip(g.low.ravel(), g.high.ravel())]
        got = np.array([np.asarray(e).ravel() for e in els], float)
        for c, w in enumerate(want):
            run.check(np.allclose(sorted(set(got[:, c].round(5))), sorted(set(w.round(5))), atol=1e-3), 'discretize:grid', lambda: f'component {c}: {sorted(set(got[:, c]))} instead of {w} {ctx()}')
        run.check(len({tuple(r) for r in got.round(6).tolist()}) == len(els), 'discretize:duplicate-action', ctx)
    run.case((repr(g), f, b), n > 1)


GROUPS = [('wrap', wrap, 300, 2500, None), ('detinit', detinit, 250, 2000, None), ('det', det, 300, 2500, None), ('planning', planning, 300, 2500, None), ('asgym', asgym, 300, 2500, None),
          ('bee', bee, 200, 4000), ('width', width, 200, 2000, None), ('elliptical', elliptical, 60, 500, None), ('discretize', discretize, 350, 3000, None)]

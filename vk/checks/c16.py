"""C16 hub.space.gym: membership, sampling, enumeration and the two conversions (JSON, gym) of every space are consistent and lossless."""
import json
from dataclasses import dataclass, field, make_dataclass
from enum import Enum, IntEnum

import gym.spaces as gs
import numpy as np

from skdecide.hub.space.gym import (GymSpace, BoxSpace, DiscreteSpace, MultiDiscreteSpace, MultiBinarySpace, TupleSpace, DictSpace, EnumSpace, ListSpace, DataSpace)

RULE = 'random spaces of every kind (nested ones included); members sampled by the space and by the harness, near-misses as non-members; non-trivial = at least 2 elements'
REQUIRED = {'samples': 5000, 'json_roundtrips': 2000, 'gym_roundtrips': 2000, 'nonmembers': 1000, 'members': 1000, 'enum': 200, 'list': 200, 'data': 200, 'coverage': 100, 'nested': 100}
ASSUMPTIONS = ['gym 0.26 spaces underneath; elements of a ListSpace used through JSON are JSON values']


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a == b).all()
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def raw(rng, depth=0):
    """-> gym space, function making a member, function making non-members"""
    k = rng.choice(['box', 'disc', 'md', 'mb'] + (['tuple', 'dict'] if depth < 2 else []))
    if k == 'box':
        shape = rng.choice([(1,), (2,), (3,), (2, 2), (1, 3)])
        lo, hi = rng.choice([(-1, 1), (0, 10), (-5.5, -2), (0, 255), (-100, 100)])
        dt = rng.choice([np.float32, np.float64, np.int64, np.uint8])
        if dt is np.uint8:
            lo, hi = 0, 255
        if dt is np.int64:
            lo, hi = int(lo), int(hi)
        r = np.random.default_rng(rng.randrange(1 << 30))
        mk = lambda: (r.uniform(lo, hi, shape).clip(lo, hi) if dt in (np.float32, np.float64) else r.integers(lo, hi + 1, shape)).astype(dt)

        def bad():
            x = mk()
            if dt is not np.uint8:
                y = x.copy()
                y.flat[rng.randrange(y.size)] = rng.choice([hi + 1, lo - 1])
                yield y
            yield np.zeros((4, 5), dt)
        return gs.Box(lo, hi, shape, dt), mk, bad
    if k == 'disc':
        n = rng.randint(1, 9)
        return gs.Discrete(n), lambda: rng.randrange(n), lambda: iter([n, n + 3, -1, 'x', 0.5])
    if k == 'md':
        nv = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]

        def bad():
            x = np.array([rng.randrange(v) for v in nv])
            i = rng.randrange(len(nv))
            x[i] = nv[i]
            yield x
            yield np.zeros(len(nv) + 1, int)
        return gs.MultiDiscrete(nv), lambda: np.array([rng.randrange(v) for v in nv]), bad
    if k == 'mb':
        n = rng.randint(1, 5)
        return gs.MultiBinary(n), lambda: np.array([rng.randrange(2) for _ in range(n)], np.int8), lambda: iter([np.zeros(n + 1, np.int8), np.array([2] + [0] * (n - 1), np.int8)])
    subs = [raw(rng, depth + 1) for _ in range(rng.randint(1, 3))]
    if k == 'tuple':
        def bad():
            for i, (s, m, b) in enumerate(subs):
                for x in b():
                    yield tuple(x if j == i else t[1]() for j, t in enumerate(subs))
            yield tuple(t[1]() for t in subs) + (0,)
        return gs.Tuple([s for s, m, b in subs]), lambda: tuple(m() for s, m, b in subs), bad
    names = [f'k{i}' for i in range(len(subs))]

    def bad():
        for i, (s, m, b) in enumerate(subs):
            for x in b():
                yield {names[j]: (x if j == i else t[1]()) for j, t in enumerate(subs)}
        d = {n: t[1]() for n, t in zip(names, subs)}
        d.pop(names[0])
        yield d
    return gs.Dict({n: s for n, (s, m, b) in zip(names, subs)}), lambda: {n: t[1]() for n, t in zip(names, subs)}, bad


def wrap(rng, g):
    """the dedicated class of the same space"""
    if isinstance(g, gs.Box) and rng.random() < .7:
        if rng.random() < .5:
            return BoxSpace(g.low, g.high, dtype=g.dtype.type)
        return BoxSpace(g.low.flat[0].item(), g.high.flat[0].item(), g.shape, g.dtype.type)
    if isinstance(g, gs.Discrete) and rng.random() < .7:
        return DiscreteSpace(int(g.n))
    if isinstance(g, gs.MultiDiscrete) and rng.random() < .7:
        return MultiDiscreteSpace(g.nvec)
    if isinstance(g, gs.MultiBinary) and rng.random() < .7:
        return MultiBinarySpace(g.n)
    if isinstance(g, gs.Tuple) and rng.random() < .7:
        return TupleSpace(g.spaces)
    if isinstance(g, gs.Dict) and rng.random() < .7:
        r = rng.random()
        return DictSpace(dict(g.spaces)) if r < .5 else DictSpace(**g.spaces)
    return GymSpace(g)


def conversions(run, low, sp, xs, ctx, eq=same, json_ok=True):
    if json_ok:
        j = sp.to_jsonable(xs)
        txt = json.dumps(j)
        back = list(sp.from_jsonable(json.loads(txt)))
        run.hit('json_roundtrips', len(xs))
        run.check(len(back) == len(xs) and all(eq(a, b) for a, b in zip(xs, back)), f'{low}:json-roundtrip', lambda: f'{xs} -> {txt[:300]} -> {back} {ctx}')
        if low in ('enum', 'list'):     # gym itself loses the numpy types
            run.check(all(sp.contains(b) for b in back), f'{low}:json-roundtrip-not-contained', lambda: f'{back} {ctx}')
    u = list(sp.to_unwrapped(xs))
    back = list(sp.from_unwrapped(u))
    run.hit('gym_roundtrips', len(xs))
    run.check(len(u) == len(xs) and all(sp.unwrapped().contains(x) for x in u), f'{low}:unwrapped-not-in-gym-space', lambda: f'{xs} -> {u} {ctx}')
    run.check(len(back) == len(xs) and all(eq(a, b) for a, b in zip(xs, back)), f'{low}:gym-roundtrip', lambda: f'{xs} -> {u} -> {back} {ctx}')
    v = sp.unwrapped().sample()
    [w] = sp.from_unwrapped([v])
    run.check(sp.contains(w), f'{low}:wrapped-gym-sample-not-contained', lambda: f'{v} -> {w} {ctx}')
    run.check(all(same(p, q) for p, q in zip([v], sp.to_unwrapped([w]))), f'{low}:gym-roundtrip', lambda: f'{v} -> {w} {ctx}')


def plain(run, rng):
    g, mk, bad = raw(rng)
    sp = wrap(rng, g)
    sp.unwrapped().seed(rng.randrange(1 << 30))
    ctx = repr(g)
    if isinstance(g, (gs.Tuple, gs.Dict)):
        run.hit('nested')
    run.check(sp.unwrapped() == g, 'plain:unwrapped', lambda: f'{sp.unwrapped()} {g}')
    run.check(sp.shape == g.shape and sp.dtype == g.dtype, 'plain:shape-dtype', lambda: f'{sp.shape} {sp.dtype} {ctx}')
    xs = []
    for _ in range(6):
        x = sp.sample()
        run.hit('samples')
        run.check(sp.contains(x) and x in sp and g.contains(x), 'plain:sample-not-contained', lambda: f'{x} {ctx}')
        xs.append(x)
        m = mk()
        run.hit('members')
        run.check(sp.contains(m), 'plain:member-not-contained', lambda: f'{m} {ctx}')
        xs.append(m)
    for x in bad():
        run.hit('nonmembers')
        run.check(not sp.contains(x), 'plain:non-member-contained', lambda: f'{x!r} {ctx}')
    conversions(run, 'plain', sp, xs, ctx)
    run.case((ctx, [str(x) for x in xs[:3]]), True)


def enum(run, rng):
    n = rng.randint(1, 8)
    names = rng.sample(['red', 'green', 'blue', 'up', 'down', 'left', 'right', 'X', 'Y_', 'z9'], n)
    vals = rng.choice([lambda i: i, lambda i: 10 - i, lambda i: f'v{i}', lambda i: (i, -i), lambda i: [i], lambda i: 100 * i + 7])
    base = rng.choice([Enum, Enum, IntEnum]) if isinstance(vals(0), int) else Enum
    aliases = {f'also_{k}': vals(i) for i, k in enumerate(names) if rng.random() < .3} if rng.random() < .3 else {}     # second names of the same elements
    E = base('E', dict(rng.sample([*{k: vals(i) for i, k in enumerate(names)}.items(), *aliases.items()], n + len(aliases))))
    names = [e.name for e in E]
    F = base('F', {k: vals(i) for i, k in enumerate(names)})
    sp = EnumSpace(E)
    sp.unwrapped().seed(rng.randrange(1 << 30))
    ctx = f'{list(E)}'
    run.hit('enum')
    run.check(list(sp.get_elements()) == list(E), 'enum:elements', ctx)
    seen = set()
    for _ in range(12 * n):
        x = sp.sample()
        run.hit('samples')
        run.check(isinstance(x, E) and sp.contains(x) and x in sp, 'enum:sample-not-contained', lambda: f'{x!r} {ctx}')
        seen.add(x.name)
    for m in E:
        run.hit('members')
        run.check(sp.contains(m), 'enum:member-not-contained', lambda: f'{m} {ctx}')
    for b in [*list(F), *names, 'nope', None, -5]:
        run.hit('nonmembers')
        run.check(not sp.contains(b), 'enum:non-member-contained', lambda: f'{b!r} {ctx}')
    run.check(sp.unwrapped().n == n, 'enum:unwrapped-size', ctx)
    conversions(run, 'enum', sp, [*rng.sample(list(E), n), rng.choice(list(E))], ctx, eq=lambda a, b: a is b)
    run.hit('coverage')
    run.check(n > 3 or len(seen) == n, 'enum:elements-never-sampled', lambda: f'{seen} {ctx}')      # P(miss) <= 3 * (2/3)^36 < 2e-6
    run.case((names, base.__name__, str(vals(1))), n > 1)


def lists(run, rng):
    n = rng.randint(1, 8)
    kind = rng.choice(['int', 'str', 'tuple', 'mixed', 'float', 'list', 'unhashable'])
    mk = {'int': lambda: rng.randint(-50, 50), 'str': lambda: rng.choice('abcdefgh') * rng.randint(1, 3), 'tuple': lambda: (rng.randint(0, 3), rng.randint(0, 3)), 'float': lambda: rng.uniform(-1, 1),
          'mixed': lambda: rng.choice([rng.randint(-9, 9), 'x%d' % rng.randint(0, 9), (1, rng.randint(0, 9)), None]), 'list': lambda: [rng.randint(0, 3) for _ in range(rng.randint(0, 3))],
          'unhashable': lambda: {'a': rng.randint(0, 9)}}[kind]
    els = []
    while len(els) < n:
        x = mk()
        if x not in els:
            els.append(x)
    it = rng.choice([list, tuple, iter])(els)
    sp = ListSpace(it)
    sp.unwrapped().seed(rng.randrange(1 << 30))
    ctx = f'{els}'
    run.hit('list')
    run.check(list(sp.get_elements()) == els, 'list:elements', ctx)
    seen = []
    for _ in range(12 * n):
        x = sp.sample()
        run.hit('samples')
        run.check(x in els and sp.contains(x), 'list:sample-not-contained', lambda: f'{x!r} {ctx}')
        if x not in seen:
            seen.append(x)
    for m in els:
        run.hit('members')
        run.check(sp.contains(m), 'list:member-not-contained', lambda: f'{m} {ctx}')
    for _ in range(4):
        b = rng.choice([mk(), 'no', 99.5, (1, 2, 3)])
        if b not in els:
            run.hit('nonmembers')
            run.check(not sp.contains(b), 'list:non-member-contained', lambda: f'{b!r} {ctx}')
    run.check(sp.unwrapped().n == n, 'list:unwrapped-size', ctx)
    xs = rng.sample(els, n)
    conversions(run, 'list', sp, xs, ctx, eq=lambda a, b: a == b, json_ok=kind in ('int', 'str', 'float', 'list', 'unhashable'))
    run.hit('coverage')
    run.check(n > 3 or len(seen) == n, 'list:elements-never-sampled', lambda: f'{seen} {ctx}')
    run.check(list(sp.get_elements()) == els, 'list:elements-changed', ctx)
    run.case((kind, ctx), n > 1)


def data(run, rng):
    subs = [raw(rng, 1) for _ in range(rng.randint(1, 4))]
    names = rng.sample(['x', 'y', 'speed', 'b', 'a', 'pos'], len(subs))
    C = make_dataclass('C', names, eq=True)
    order = list(zip(names, subs))
    rng.shuffle(order)          # the space may list the fields in another order than the class
    spec = {n: s for n, (s, m, b) in order}
    sp = DataSpace(C, rng.choice([dict, lambda d: list(d.items())])(spec))
    sp.unwrapped().seed(rng.randrange(1 << 30))
    ctx = f'{spec}'
    run.hit('data')
    eq = lambda a, b: isinstance(a, C) and isinstance(b, C) and all(same(getattr(a, n), getattr(b, n)) for n in names)
    mk = lambda: C(**{n: t[1]() for n, t in zip(names, subs)})
    xs = []
    for _ in range(4):
        x = sp.sample()
        run.hit('samples')
        run.check(isinstance(x, C) and sp.contains(x), 'data:sample-not-contained', lambda: f'{x} {ctx}')
        m = mk()
        run.hit('members')
        run.check(sp.contains(m), 'data:member-not-contained', lambda: f'{m} {ctx}')
        xs += [x, m]
    for i, (s, m, b) in enumerate(subs):
        if isinstance(s, gs.Box):
            y = m().astype(float)
            y.flat[0] = s.high.flat[0] + 50
            bads = [y.astype(s.dtype)] if s.dtype != np.uint8 else []
        elif isinstance(s, gs.Discrete):
            bads = [int(s.n), -1]
        elif isinstance(s, gs.MultiDiscrete):
            y = m()
            y[-1] = s.nvec[-1]
            bads = [y]
        else:
            bads = []
        for x in bads:
            run.hit('nonmembers')
            z = C(**{names[j]: (x if j == i else t[1]()) for j, t in enumerate(subs)})
            run.check(not sp.contains(z), 'data:non-member-contained', lambda: f'{z} {ctx}')
    conversions(run, 'data', sp, xs, ctx, eq=eq)
    P = make_dataclass('P', ['h', 'n'])         # fields recast from 0-dimensional arrays to scalars
    sc = DataSpace(P, {'h': gs.Box(-10., 10., (), np.float64), 'n': gs.Discrete(5)})
    z = sc.sample()
    run.check(sc.contains(z) and sc.contains(P(h=rng.uniform(-10, 10), n=rng.randrange(5))), 'data:scalar-field-not-contained', lambda: f'{z}')
    run.check(not sc.contains(P(h=rng.uniform(11, 20), n=0)) and not sc.contains(P(h=0., n=7)), 'data:non-member-contained', lambda: f'{z}')
    run.case((names, ctx), True)


GROUPS = [('plain', plain, 800, 8000, None), ('enum', enum, 300, 3000, None), ('list', lists, 400, 4000, None), ('data', data, 400, 4000, None)]

"""Random resource-constrained project scheduling problems and an independent oracle for them (shared by the discrete-optimisation checks).

Convention of the library: activity 1 is the source, n+2 the sink, both with duration 0 and no need; modes are numbered from 1."""
import random

from vk import dostubs

dostubs.install()
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as rm      # noqa: E402


class P:
    """Plain problem data."""

    def __init__(self, res, nonren, modes, succ, horizon, mult=1, calendar=False):
        self.res, self.nonren, self.modes, self.succ, self.horizon, self.mult, self.calendar = res, nonren, modes, succ, horizon, mult, calendar
        self.n = len(modes) - 2
        self.sink = self.n + 2
        self.multi = any(len(m) > 1 for m in modes.values())

    def __repr__(self):
        return f'P(res={self.res}, nonren={self.nonren}, modes={self.modes}, succ={self.succ}, horizon={self.horizon}, mult={self.mult})'

    def cap(self, r, t):
        return (self.res[r][t] if t < len(self.res[r]) else 0) if self.calendar else self.res[r]

    def preds(self):
        p = {j: set() for j in self.modes}
        for i, l in self.succ.items():
            for j in l:
                p[j].add(i)
        return p

    def end(self):
        return self.horizon * self.mult


def gen(rng, n=None, multi=None, nonren=None, calendar=False, tight=None, zero=True, max_dur=5, overload=False, dag=0.3, dense_sink=True):
    n = n if n is not None else rng.randint(1, 8)
    multi = rng.random() < 0.4 if multi is None else multi
    nonren = (multi and rng.random() < 0.7) if nonren is None else nonren
    R = [f'R{i + 1}' for i in range(rng.randint(1, 3))]
    N = [f'N{i + 1}' for i in range(rng.randint(1, 2))] if nonren else []
    names = R + N
    if rng.random() < 0.3:
        rng.shuffle(names)
    caps = {r: rng.randint(1, 6) for r in R}
    modes = {1: {1: dict({r: 0 for r in names}, duration=0)}}
    perm = list(range(2, n + 2))
    rng.shuffle(perm)           # identifiers are not a topological order
    for j in range(2, n + 2):
        modes[j] = {}
        for k in range(1, (rng.randint(1, 3) if multi else 1) + 1):
            d = rng.randint(0 if zero and rng.random() < 0.3 else 1, max_dur)
            m = {'duration': d}
            for r in R:
                m[r] = 0 if rng.random() < 0.3 else rng.randint(0, caps[r])
            for r in N:
                m[r] = rng.randint(0, 4)
            if overload and rng.random() < 0.1:
                m[rng.choice(R)] += 7
            modes[j][k] = m
    if multi and n >= 1 and all(len(modes[j]) == 1 for j in range(2, n + 2)):
        j = rng.randint(2, n + 1)
        modes[j][2] = dict(modes[j][1], duration=rng.randint(1, max_dur))
    modes[n + 2] = {1: dict({r: 0 for r in names}, duration=0)}
    for r in N:
        lo = sum(min(m[r] for m in modes[j].values()) for j in modes)
        hi = sum(max(m[r] for m in modes[j].values()) for j in modes)
        caps[r] = max(0, rng.randint(lo - (1 if overload else 0), max(lo, hi)))
    succ = {j: [] for j in range(1, n + 3)}
    for a in range(n):
        for b in range(a + 1, n):
            if rng.random() < dag:
                succ[perm[a]].append(perm[b])
    haspred = {x for l in succ.values() for x in l}
    for j in range(2, n + 2):
        if j not in haspred or (dense_sink and rng.random() < 0.1):
            succ[1].append(j)
        if not succ[j] or (dense_sink and rng.random() < 0.1):
            succ[j].append(n + 2)
    if n == 0:
        succ[1].append(n + 2)
    for l in succ.values():
        rng.shuffle(l)
    total = sum(max(m['duration'] for m in modes[j].values()) for j in modes)
    tight = rng.random() < 0.2 if tight is None else tight
    mult = rng.choice([1, 1, 1, 2])
    horizon = max(1, (rng.randint(1, total + 1) if tight else total + rng.randint(1, 3)))
    res = {r: caps[r] for r in names}
    if calendar:
        horizon = horizon + rng.randint(0, 8)
        L = horizon * mult + 1 + rng.randint(0, 3)
        res = {}
        for r in names:
            if r in N:
                res[r] = [caps[r]] * L
            else:
                seq, v = [], caps[r]
                while len(seq) < L:
                    v = rng.choice([caps[r], caps[r], rng.randint(0, caps[r])])
                    seq += [v] * rng.randint(1, 4)
                res[r] = seq[:L]
    return P(res, N, modes, succ, horizon, mult, calendar)


def build(p, kind=None):
    import copy
    a = dict(resources=copy.deepcopy(p.res), non_renewable_resources=list(p.nonren), mode_details=copy.deepcopy(p.modes), successors=copy.deepcopy(p.succ), horizon=p.horizon, horizon_multiplier=p.mult)
    if kind is None:
        kind = 'calendar' if p.calendar else 'multi' if p.multi else 'single'
    cls = {'calendar': rm.RCPSPModelCalendar, 'multi': rm.MultiModeRCPSPModel, 'single': rm.SingleModeRCPSPModel, 'base': rm.RCPSPModel}[kind]
    return cls(**a)


def mode_of(p, modes, j):
    return 1 if j in (1, p.sink) else modes[j - 2]


def sgs(p, perm, modes, fixed=None, not_before=0, done=None):
    """Serial schedule generation: activities in priority order, first eligible first, each at its earliest feasible date.
    Returns (feasible, {activity: (start, end)})."""
    H = p.end()
    preds = p.preds()
    done = done or {}
    out = dict(done)
    order = [j for j in [1] + [x + 2 for x in perm] + [p.sink] if j not in done]
    use = {r: {} for r in p.res}
    spent = {r: 0 for r in p.nonren}
    for j in done:
        for r in p.nonren:
            spent[r] += p.modes[j][mode_of(p, modes, j)][r]

    def put(j, t):
        m = p.modes[j][mode_of(p, modes, j)]
        for u in range(t, t + m['duration']):
            for r in p.res:
                if r not in p.nonren:
                    use[r][u] = use[r].get(u, 0) + m[r]
        for r in p.nonren:
            spent[r] += m[r]
        out[j] = (t, t + m['duration'])
    for j, t in (fixed or {}).items():
        if j in order:
            order.remove(j)
            put(j, t)
    while order:
        j = next(x for x in order if not (preds[x] & set(order)))
        m = p.modes[j][mode_of(p, modes, j)]
        d = m['duration']
        t = max([not_before] + [out[i][1] for i in preds[j]])
        while True:
            if d and t + d > H:
                return False, out
            bad = None
            for u in range(t, t + d):
                if any(use[r].get(u, 0) + m[r] > p.cap(r, u) for r in p.res if r not in p.nonren):
                    bad = u
            if bad is None:
                break
            t = bad + 1
        put(j, t)
        order.remove(j)
    if any(spent[r] > p.cap(r, 0) for r in p.nonren):
        return False, out
    return True, out


def valid(p, sched, modes, durations=True):
    """None if the schedule {activity: (start, end)} respects the problem, otherwise what it violates."""
    if set(sched) != set(p.modes):
        return 'activities'
    if any(s < 0 for s, _ in sched.values()):
        return 'start'
    for j, (s, e) in sched.items():
        if mode_of(p, modes, j) not in p.modes[j]:
            return 'mode'
        if durations and e - s != p.modes[j][mode_of(p, modes, j)]['duration']:
            return 'duration'
    for i, l in p.succ.items():
        for j in l:
            if sched[j][0] < sched[i][1]:
                return 'precedence'
    for r in p.res:
        if r in p.nonren:
            if sum(p.modes[j][mode_of(p, modes, j)][r] for j in sched) > p.cap(r, 0):
                return 'nonrenewable'
        else:
            for u in range(max(e for _, e in sched.values())):
                if sum(p.modes[j][mode_of(p, modes, j)][r] for j, (s, e) in sched.items() if s <= u < e) > p.cap(r, u):
                    return 'renewable'
    return None


def sched_of(sol):
    return {j: (int(d['start_time']), int(d['end_time'])) for j, d in sol.rcpsp_schedule.items()}


def rand_modes(rng, p):
    return [rng.choice(sorted(p.modes[j])) for j in range(2, p.n + 2)]


def rand_perm(rng, p):
    x = list(range(p.n))
    rng.shuffle(x)
    return x


def optimum(p, limit=200000):
    """Optimal makespan by exhaustive search over semi-active schedules (all precedence-feasible orders and modes; serial SGS), None if infeasible."""
    import itertools
    best = None
    preds = p.preds()
    ids = list(range(2, p.n + 2))
    for ms in itertools.product(*[sorted(p.modes[j]) for j in ids]):
        if any(sum(p.modes[j][m][r] for j, m in zip(ids, ms)) > p.cap(r, 0) for r in p.nonren):
            continue
        seen = set()

        def rec(order, sch, use):
            nonlocal best
            if best is not None and sch and max(e for _, e in sch.values()) >= best:
                return
            if len(order) == p.n:
                mk = max([e for _, e in sch.values()] + [0])
                if best is None or mk < best:
                    best = mk
                return
            key = frozenset(sch.items())
            if key in seen:
                return
            seen.add(key)
            for j, m in zip(ids, ms):
                if j in sch or any(i != 1 and i not in sch for i in preds[j]):
                    continue
                d = p.modes[j][m]
                t = max([0] + [sch[i][1] for i in preds[j] if i != 1])
                ok = True
                while True:
                    if d['duration'] and t + d['duration'] > p.end():
                        ok = False
                        break
                    bad = [u for u in range(t, t + d['duration']) if any(use.get((r, u), 0) + d[r] > p.cap(r, u) for r in p.res if r not in p.nonren)]
                    if not bad:
                        break
                    t = bad[-1] + 1
                if not ok:
                    continue
                nu = dict(use)
                for u in range(t, t + d['duration']):
                    for r in p.res:
                        if r not in p.nonren:
                            nu[r, u] = nu.get((r, u), 0) + d[r]
                rec(order + [j], {**sch, j: (t, t + d['duration'])}, nu)
        rec([], {}, {})
    return best

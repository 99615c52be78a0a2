"""C01 autocast: values crossing between a domain's and a solver's modelling level are preserved exactly.

Reference model: a 'core' value (per-agent lists of events, list of states) is encoded independently at each level."""
from typing import List, Union

from skdecide import (D, Domain, Solver, Memory, StrDict, Space, EnvironmentOutcome, TransitionOutcome, TransitionValue, DiscreteDistribution,
                      SingleValueDistribution, ImplicitDistribution, ImplicitConstraint, BoundConstraint, ImplicitSpace, autocastable, autocast_all)
from skdecide.builders.domain import *
from skdecide.builders.solver import *
from skdecide.builders.solver.assessability import QValues

RULE = ('random modelling levels (agent x concurrency x memory) for the domain and for the solver, random payloads (nested containers, None, '
        'numbers, objects), every castable operation called positionally and by keyword; non-trivial = the two levels differ')
REQUIRED = {'arg_events': 500, 'result_events': 500, 'solver_events': 100, 'custom_events': 500, 'constraint_events': 50}
ASSUMPTIONS = ['a many-valued container is only down-cast when it is a singleton (what a level change can express)']


class Tok:
    """opaque payload"""
    def __init__(self, n): self.n = n
    def __repr__(self): return f'Tok({self.n})'
    def __eq__(self, o): return isinstance(o, Tok) and o.n == self.n
    def __hash__(self): return hash(self.n)


def payload(rng, depth=0, hashable=False):
    k = rng.randrange(7 if (depth or hashable) else 11)
    if k == 0: return rng.randint(-5, 5)
    if k == 1: return rng.random()
    if k == 2: return rng.choice(['a', 'bb', '', 'agent'])
    if k == 3: return Tok(rng.randint(0, 99))
    if k == 4: return (rng.randint(0, 3), 'x')
    if k == 5: return True
    if k == 6: return 0
    if k == 7: return [payload(rng, 1) for _ in range(rng.randint(0, 3))]
    if k == 8: return {'agent': payload(rng, 1)}
    if k == 9: return {c: payload(rng, 1) for c in 'xyz'[:rng.randint(0, 3)]}
    return Memory([payload(rng, 1)])


class Lv:
    def __init__(self, multi, par, hist):
        self.multi, self.par, self.hist = multi, par, hist
    def key(self): return (self.multi, self.par, self.hist)
    def A(self, d):                    # {agent: x}
        return dict(d) if self.multi else next(iter(d.values()))
    def C(self, evs):
        return list(evs) if self.par else evs[0]
    def AC(self, d):
        return self.A({k: self.C(v) for k, v in d.items()})
    def M(self, states):
        return Memory(states) if self.hist else states[0]


def same(a, b):
    """equality + same container type, recursively"""
    if isinstance(a, (dict,)) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Memory) or isinstance(b, Memory):
        return isinstance(a, Memory) and isinstance(b, Memory) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def mk_domain(lv, log, ret, det, finite):
    bases = [Domain]
    bases.append(MultiAgent if lv.multi else SingleAgent)
    bases.append(Parallel if lv.par else Sequential)
    bases += [DeterministicTransitions if det else EnumerableTransitions, Actions, Goals, Constrained, DeterministicInitialized]
    bases.append((FiniteHistory if finite else History) if lv.hist else Markovian)
    bases += [TransformedObservable, PositiveCosts, Renderable]

    def rec(name):
        def f(self, *a, **k):
            log.append((name, a, k))
            return ret[name]() if callable(ret.get(name)) else ret.get(name)
        return f
    ns = {n: rec(n) for n in ['_step', '_sample', '_get_next_state_distribution', '_get_transition_value', '_is_terminal', '_get_applicable_actions',
                              '_is_applicable_action', '_get_action_space', '_get_goals', '_is_goal', '_get_constraints', '_reset', '_set_memory',
                              '_get_observation_space', '_is_observation', '_get_observation', '_get_observation_distribution', '_get_enabled_events',
                              '_is_enabled_event', '_is_action', '_get_initial_state', '_get_initial_state_distribution', '_check_value', '_render', '_get_next_state']}
    ns['_get_memory_maxlen_'] = lambda self: 7
    return type('Dom', tuple(bases), ns)


def levels(rng):
    b = lambda: rng.random() < .5
    return Lv(b(), b(), b()), Lv(b(), b(), b())


def core(rng, a, b):
    agents = ['agent'] if not (a.multi and b.multi) else rng.sample(['agent', 'a1', 'a2', 'b'], rng.randint(1, 3))
    ne = (lambda: 1) if not (a.par and b.par) else (lambda: rng.randint(0, 3))
    nh = 1 if not (a.hist and b.hist) else rng.randint(1, 4)
    return agents, ne, nh


def domain_case(run, rng):
    a, b = levels(rng)
    agents, ne, nh = core(rng, a, b)
    P = lambda: payload(rng)
    per_agent = lambda f: {g: f() for g in agents}
    joint = lambda: per_agent(lambda: [P() for _ in range(ne())])
    states = lambda: [P() for _ in range(nh)]
    log, ret = [], {}
    det, finite = rng.random() < .5, rng.random() < .5
    A_ = mk_domain(a, log, ret, det, finite)
    B_ = mk_domain(b, [], {}, det, finite)
    dom = A_()
    autocast_all(dom, A_, B_)
    run.case((a.key(), b.key(), agents, nh, det, finite, payload(rng)), a.key() != b.key())

    def call(meth, args, expect_args, result, expect, names):
        """args: B-level, expect_args: A-level; result: A-level return; expect: predicate over the B-level result"""
        hook = '_' + meth
        ret[hook] = lambda: result
        del log[:]
        kw = rng.random() < .4
        got = getattr(dom, meth)(**dict(zip(names, args))) if kw else getattr(dom, meth)(*args)
        ok = [l for l in log if l[0] == hook]
        if not run.check(len(ok) == 1, f'{meth}:not-delivered-once', log):
            return
        sent = ok[0]
        recv = list(sent[1]) + [sent[2][n] for n in names[len(sent[1]):] if n in sent[2]]
        run.hit('arg_events', len(args))
        run.check(len(recv) >= len(expect_args) and all(same(x, y) for x, y in zip(recv, expect_args)), f'{meth}:argument', lambda: f'levels {a.key()}->{b.key()} sent {args} received {recv} expected {expect_args}')
        run.hit('result_events')
        run.check(expect(got), f'{meth}:result', lambda: f'domain level {a.key()} solver level {b.key()} raw {result!r} got {got!r}')

    s, j, m, o = P(), joint(), states(), per_agent(P)
    v = per_agent(lambda: TransitionValue(cost=rng.choice([0, 1, 2.5])))
    inf = per_agent(P)
    term = rng.random() < .5

    def env_ok(r):
        return (isinstance(r, EnvironmentOutcome) and same(r.observation, b.A(o)) and same(b_norm(r.value), b_norm(b.A(v))) and same(r.info, b.A(inf)) and r.termination is term)

    def b_norm(x):
        return {k: (t.reward, t.cost) for k, t in x.items()} if isinstance(x, dict) else (x.reward, x.cost)
    eo = EnvironmentOutcome(a.A(o), a.A(v), term, a.A(inf))
    call('step', [b.AC(j)], [a.AC(j)], eo, env_ok, ['action'])
    call('sample', [b.M(m), b.AC(j)], [a.M(m), a.AC(j)], eo, env_ok, ['memory', 'action'])
    call('reset', [], [], a.A(o), lambda r: same(r, b.A(o)), [])
    call('set_memory', [b.M(m)], [a.M(m)], None, lambda r: r is None, ['memory'])
    ns = P() if rng.random() < .7 else None
    call('get_transition_value', [b.M(m), b.AC(j), ns], [a.M(m), a.AC(j), ns], a.A(v), lambda r: same(b_norm(r), b_norm(b.A(v))), ['memory', 'action', 'next_state'])
    tr = rng.random() < .5
    call('is_terminal', [s], [s], tr, lambda r: r is tr, ['state'])
    spaces = {g: ImplicitSpace(lambda x: True) for g in agents}
    sp_ok = lambda r: (set(r) == set(agents) and all(r[g] is spaces[g] for g in agents)) if b.multi else r is spaces[agents[0]]
    call('get_action_space', [], [], a.A(spaces), sp_ok, [])
    call('get_observation_space', [], [], a.A(spaces), sp_ok, [])
    call('get_goals', [], [], a.A(spaces), sp_ok, [])
    call('get_applicable_actions', [b.M(m)], [a.M(m)], a.A(spaces), sp_ok, ['memory'])
    call('get_applicable_actions', [None], [None], a.A(spaces), sp_ok, ['memory'])
    ev = per_agent(P)
    call('is_applicable_action', [b.A(ev), b.M(m)], [a.A(ev), a.M(m)], tr, lambda r: r is tr, ['action', 'memory'])
    call('is_goal', [b.A(o)], [a.A(o)], tr, lambda r: r is tr, ['observation'])
    call('is_observation', [b.A(o)], [a.A(o)], tr, lambda r: r is tr, ['observation'])
    call('get_observation', [s, b.AC(j)], [s, a.AC(j)], a.A(o), lambda r: same(r, b.A(o)), ['state', 'action'])
    call('get_observation', [s, None], [s, None], a.A(o), lambda r: same(r, b.A(o)), ['state', 'action'])
    call('get_enabled_events', [b.M(m)], [a.M(m)], spaces[agents[0]], lambda r: r is spaces[agents[0]], ['memory'])
    e = P()
    call('is_enabled_event', [e, b.M(m)], [e, a.M(m)], tr, lambda r: r is tr, ['event', 'memory'])
    call('is_action', [e], [e], tr, lambda r: r is tr, ['event'])
    call('get_initial_state', [], [], s, lambda r: same(r, s), [])
    call('render', [b.M(m)], [a.M(m)], e, lambda r: same(r, e), ['memory'])
    # distributions
    obs = [per_agent(P) for _ in range(rng.randint(1, 4))]
    pr = [rng.choice([.1, .2, .5, 1., 2.]) for _ in obs]
    kind = rng.randrange(3)
    if kind == 0:
        dist = DiscreteDistribution([(a.A(x), p) for x, p in zip(obs, pr)])

        def dist_ok(r):
            vals, one = r.get_values(), r.sample()
            return (isinstance(r, DiscreteDistribution) and len(vals) == len(obs) and all(same(x, b.A(y)) and q == p for (x, q), y, p in zip(vals, obs, pr))
                    and any(same(one, b.A(y)) for y in obs))
    elif kind == 1:
        dist = SingleValueDistribution(a.A(obs[0]))
        dist_ok = lambda r: isinstance(r, SingleValueDistribution) and same(r.get_value(), b.A(obs[0])) and same(r.sample(), b.A(obs[0])) and r.get_values()[0][1] == 1.0
    else:
        it = [0]

        def smp():
            it[0] += 1
            return a.A(obs[(it[0] - 1) % len(obs)])
        dist = ImplicitDistribution(smp)
        dist_ok = lambda r: all(same(r.sample(), b.A(obs[i % len(obs)])) for i in range(2 * len(obs)))
    call('get_observation_distribution', [s, b.AC(j)], [s, a.AC(j)], dist, dist_ok, ['state', 'action'])
    sd = DiscreteDistribution([(P(), p) for p in pr])
    call('get_next_state_distribution', [b.M(m), b.AC(j)], [a.M(m), a.AC(j)], sd, lambda r: [q for _, q in r.get_values()] == pr and all(same(x, y) for (x, _), (y, _) in zip(r.get_values(), sd.get_values())), ['memory', 'action'])
    if det:
        call('get_next_state', [b.M(m), b.AC(j)], [a.M(m), a.AC(j)], s, lambda r: same(r, s), ['memory', 'action'])
    # constraints
    clog = []
    flag = rng.random() < .5
    val = rng.choice([-1., 0., 1., 2.])
    bound = rng.choice([-1., 0., 1., 2.])
    ineq = rng.choice(['<', '<=', '>', '>='])

    def chk(memory, action, next_state):
        clog.append((memory, action, next_state))
        return tr

    def evl(memory, action, next_state):
        clog.append((memory, action, next_state))
        return val
    cons = [ImplicitConstraint(chk, flag), BoundConstraint(evl, ineq, bound, flag)]

    def cons_ok(r):
        if not (isinstance(r, list) and len(r) == 2):
            return False
        del clog[:]
        truth = {'<': val < bound, '<=': val <= bound, '>': val > bound, '>=': val >= bound}[ineq]
        ok = r[0].check(b.M(m), b.AC(j), ns) is tr and r[1].check(b.M(m), b.AC(j), ns) is truth and r[1].evaluate(b.M(m), b.AC(j), ns) == val
        ok = ok and len(clog) == 3 and all(same(x[0], a.M(m)) and same(x[1], a.AC(j)) and same(x[2], ns) for x in clog)
        ok = ok and r[1].get_inequality() == ineq and r[1].get_bound() == bound and all(c.is_constraint_dependent_on_next_state() is flag for c in r)
        run.hit('constraint_events', 3)
        return ok
    call('get_constraints', [], [], cons, cons_ok, [])


CUSTOM = {}


def customs():
    """Operations a user declares castable: every castable container, each part at its own level."""
    if CUSTOM:
        return CUSTOM

    class Holder:
        @autocastable
        def outcome(self) -> 'TransitionOutcome[D.T_memory[D.T_state], D.T_agent[D.T_value], D.T_concurrency[D.T_info]]':
            return self.ret

        @autocastable
        def observed(self) -> 'EnvironmentOutcome[D.T_concurrency[D.T_observation], D.T_memory[D.T_value], D.T_agent[D.T_info]]':
            return self.ret

        @autocastable
        def law(self) -> 'Distribution[D.T_memory[D.T_agent[D.T_state]]]':
            return self.ret

        @autocastable
        def rules(self) -> 'List[Constraint[D.T_concurrency[D.T_state], D.T_memory[D.T_event], D.T_agent[D.T_state]]]':
            return self.ret

        @autocastable
        def take(self, x: 'D.T_memory[D.T_agent[D.T_concurrency[D.T_event]]]', plain=3, y: 'Optional[D.T_agent[D.T_state]]' = None, *, z: 'D.T_concurrency[D.T_state]' = None) -> 'Optional[D.T_concurrency[D.T_event]]':
            self.got = (x, plain, y, z)
            return self.ret
    CUSTOM.update(Holder=Holder)
    return CUSTOM


def custom_case(run, rng):
    a, b = levels(rng)
    Holder = customs()['Holder']
    mk = lambda lv: type('Level', (), dict(T_agent=StrDict if lv.multi else Union, T_concurrency=List if lv.par else Union, T_memory=Memory if lv.hist else Union,
                                           T_state=object, T_event=object, T_value=object, T_info=object, T_observation=object))
    src, dst = mk(a), mk(b)
    H = type('H', (Holder, src), {})
    h, untouched = H(), H()
    autocast_all(h, src, dst)
    P = lambda: payload(rng, 1)
    agents, ne, nh = core(rng, a, b)
    per = lambda: {g: P() for g in agents}
    evs = [P() for _ in range(ne())] or [P()]
    mem = [P() for _ in range(nh)]
    one = per()
    term = rng.random() < .5
    run.case((a.key(), b.key(), repr(mem)[:60], repr(one)[:60], repr(evs)[:60]), a.key() != b.key())
    v = a.A(one)
    h.ret = TransitionOutcome(a.M(mem), v, term, a.C(evs))
    r = h.outcome()
    run.hit('custom_events')
    run.check(type(r) is TransitionOutcome and same(r.state, b.M(mem)) and r.termination is term and same(r.info, b.C(evs)) and (same(r.value, b.A(one)) or any(x is None for x in one.values())), 'custom:transition-outcome',
              lambda: f'{a.key()}->{b.key()} {h.ret} gave {r}')
    h.ret = EnvironmentOutcome(a.C(evs), a.M(mem), term, a.A(one))
    r = h.observed()
    run.check(type(r) is EnvironmentOutcome and same(r.observation, b.C(evs)) and r.termination is term and same(r.value, b.M(mem)) and same(r.info, b.A(one)), 'custom:environment-outcome',
              lambda: f'{a.key()}->{b.key()} {h.ret} gave {r}')
    rows = [per() for _ in range(nh)]
    lvl = lambda lv: lv.M([lv.A(x) for x in rows])
    for d in (SingleValueDistribution(lvl(a)), DiscreteDistribution([(lvl(a), .5), (lvl(a), .25)]), ImplicitDistribution(lambda: lvl(a))):
        h.ret = d
        r = h.law()
        run.check(isinstance(r, type(d)) and same(r.sample(), lvl(b)), 'custom:distribution', lambda: f'{a.key()}->{b.key()} {type(d).__name__} {lvl(a)} gave {r.sample()}')
        if not isinstance(d, ImplicitDistribution):
            run.check([p for _, p in r.get_values()] == [p for _, p in d.get_values()] and all(same(x, lvl(b)) for x, _ in r.get_values()), 'custom:distribution-values', lambda: (a.key(), b.key(), r.get_values()))
    seen = []
    dep = rng.random() < .5
    h.ret = [ImplicitConstraint(lambda m, x, n: seen.append((m, x, n)) or True, dep), BoundConstraint(lambda m, x, n: seen.append((m, x, n)) or 2., '>', 1., dep)]
    r = h.rules()
    args, want = (b.C(evs), b.M(mem), b.A(one)), [a.C(evs), a.M(mem), a.A(one)]
    ok = isinstance(r, list) and len(r) == 2 and r[0].check(*args) is True and r[1].check(*args) is True and r[1].evaluate(*args) == 2.
    run.check(ok and all(c.is_constraint_dependent_on_next_state() is dep for c in r) and len(seen) == 3 and all(same(list(x), want) for x in seen), 'custom:constraint', lambda: f'{a.key()}->{b.key()} sent {args} received {seen} expected {want}')
    joint = [{g: [P() for _ in range(len(evs))] for g in agents} for _ in range(nh)]
    enc = lambda lv: lv.M([lv.AC(x) for x in joint])
    y = per() if rng.random() < .7 else None
    h.ret = a.C(evs) if rng.random() < .7 else None
    ret = h.ret
    plain = rng.randint(0, 9)
    yy, ya = (b.A(y), a.A(y)) if y is not None else (None, None)
    how = rng.randrange(3)
    r = h.take(enc(b), plain, yy, z=b.C(evs)) if how == 0 else h.take(plain=plain, z=b.C(evs), x=enc(b), y=yy) if how == 1 else h.take(enc(b), y=yy, plain=plain, z=b.C(evs))
    run.check(same(h.got[0], enc(a)) and h.got[1] == plain and same(h.got[2], ya) and same(h.got[3], a.C(evs)), 'custom:arguments', lambda: f'{a.key()}->{b.key()} sent {enc(b)} {yy} {b.C(evs)} received {h.got}')
    run.check(same(r, b.C(evs)) if ret is not None else r is None, 'custom:result', lambda: f'{a.key()}->{b.key()} {ret} gave {r}')
    untouched.ret = ret
    run.check(same(untouched.take(enc(a), plain, ya, z=a.C(evs)), ret) and same(untouched.got[0], enc(a)), 'custom:leaks-to-class')


def mk_level(lv):
    return type('L', (Domain, MultiAgent if lv.multi else SingleAgent, Parallel if lv.par else Sequential, History if lv.hist else Markovian), {})


def solver_case(run, rng):
    """solve_with: the solver sees the domain at its own level; the caller sees the solver at the domain's level."""
    a, b = levels(rng)                # a = domain, b = solver
    agents, ne, nh = core(rng, a, b)
    P = lambda: payload(rng)
    per_agent = lambda f: {g: f() for g in agents}
    joint = lambda: per_agent(lambda: [P() for _ in range(ne())])
    obs, j, m, q = per_agent(P), joint(), [P() for _ in range(nh)], P()
    log = []
    dlog, dret = [], {}
    A_ = mk_domain(a, dlog, dret, True, False)
    run.case((a.key(), b.key(), agents, nh, repr(obs)[:80]), a.key() != b.key())
    made = []

    class Sol(Solver, DeterministicPolicies, QValues, Restorable):
        T_domain = mk_level(b)

        def _solve_domain(self, domain_factory):
            self.dom = domain_factory()
            dret['_reset'] = lambda: a.A(obs)
            dret['_get_next_state'] = lambda: m[0]
            r = self.dom.reset()
            run.check(same(r, b.A(obs)), 'solve:reset', lambda: (a.key(), b.key(), r))
            r = self.dom.get_next_state(b.M(m), b.AC(j))
            run.check(same(r, m[0]), 'solve:next-state', r)
            x = [l for l in dlog if l[0] == '_get_next_state'][-1]
            run.check(same(list(x[1]), [a.M(m), a.AC(j)]), 'solve:domain-argument', lambda: (a.key(), b.key(), x, m, j))
            run.hit('solver_events', 3)

        def _load(self, path, domain_factory):
            log.append(('load', path))
            self._solve_domain(domain_factory)

        def _get_next_action(self, observation):
            log.append(('act', observation))
            return b.AC(j)

        def _is_policy_defined_for(self, observation):
            log.append(('def', observation))
            return True

        def _get_q_value(self, observation, action):
            log.append(('q', observation, action))
            return q

        def _get_utility(self, observation):
            log.append(('u', observation))
            return q

        def _solve_from(self, memory):
            log.append(('from', memory))

    def factory():
        d = A_()
        made.append(d)
        return d
    s = Sol()
    load = rng.random() < .3
    if load:
        r = A_.solve_with(s, factory, load_path='/some/path')
        run.check(log and log[0] == ('load', '/some/path'), 'solve_with:load-path', log)
    elif rng.random() < .5:
        r = A_.solve_with(s, factory)
    else:
        r = A_.solve_with(s)           # factory defaults to the domain class
    run.check(r is s, 'solve_with:returns-solver')
    run.check(hasattr(s, 'dom') and isinstance(s.dom, A_), 'solve_with:domain-type')

    def last(tag, want):
        run.hit('solver_events')
        run.check(log and log[-1][0] == tag and all(same(x, y) for x, y in zip(log[-1][1:], want)), f'solver:{tag}:argument', lambda: (a.key(), b.key(), log[-1:], want))
    for name in ('sample_action', 'get_next_action'):
        got = getattr(s, name)(a.A(obs))
        last('act', [b.A(obs)])
        run.check(same(got, a.AC(j)), f'solver:{name}:result', lambda: (a.key(), b.key(), got, j))
    d = s.get_next_action_distribution(a.A(obs))
    run.check(same(d.sample(), a.AC(j)) and len(d.get_values()) == 1 and same(d.get_values()[0][0], a.AC(j)) and d.get_values()[0][1] == 1, 'solver:distribution:result', lambda: (a.key(), b.key(), d.sample(), j))
    run.check(s.is_policy_defined_for(a.A(obs)) is True, 'solver:defined')
    last('def', [b.A(obs)])
    run.check(same(s.get_q_value(a.A(obs), a.AC(j)), q), 'solver:q')
    last('q', [b.A(obs), b.AC(j)])
    run.check(same(s.get_utility(a.A(obs)), q), 'solver:utility')
    last('u', [b.A(obs)])
    s.solve_from(a.M(m))
    last('from', [b.M(m)])
    # original class-level definitions are untouched: another instance still speaks its own level
    d2 = A_()
    dret['_reset'] = lambda: a.A(obs)
    run.check(same(d2.reset(), a.A(obs)), 'cast-leaks-to-class')


GROUPS = [('domain', domain_case, 1200, 12000), ('solver', solver_case, 1200, 12000), ('custom', custom_case, 1200, 12000)]

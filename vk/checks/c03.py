"""C03 membership predicates, defaults and constants of a domain."""
from skdecide import (Domain, Memory, TransitionValue, ImplicitSpace, EmptySpace, EnumerableSpace, ImplicitConstraint, BoundConstraint, Constraint,
                      SingleValueDistribution, DiscreteDistribution, EnvironmentOutcome, TransitionOutcome)
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace

RULE = ('random finite spaces per agent, memory-dependent applicable actions/events, all universe elements queried through every predicate, with '
        'explicit and default memory; constants queried repeatedly on several instances; non-trivial = both accepted and rejected elements seen')
REQUIRED = {'default_queries': 500, 'applicable_queries': 2000, 'goal_queries': 500, 'observation_queries': 500, 'event_queries': 500, 'constant_queries': 1000, 'bound_checks': 500, 'value_checks': 500}
ASSUMPTIONS = []


class Enum(EnumerableSpace):
    def __init__(self, el): self.el = el
    def get_elements(self): return list(self.el)


def space(rng, el):
    el = list(el)
    k = rng.randrange(3 if el else 2)
    return Enum(el) if k == 0 else ImplicitSpace(lambda x, e=tuple(el): x in e) if k == 1 else ListSpace(el)


def predicates(run, rng):
    multi = rng.random() < .5
    agents = ['a', 'b', 'c'][:rng.randint(1, 3)] if multi else [None]
    U = list(range(rng.randint(2, 6)))
    hist = rng.choice(['FiniteHistory', 'Markovian', 'History'])
    evt = rng.choice(['Events', 'Actions', 'UnrestrictedActions'])
    states = list(range(rng.randint(2, 4)))
    sub = lambda: {x for x in U if rng.random() < .6}
    action_sets = {g: sub() for g in agents}
    app = {(s, g): {x for x in action_sets[g] if rng.random() < .7} for s in states for g in agents}
    en = {s: sub() for s in states}
    goals = {g: sub() for g in agents}
    obs = {g: sub() for g in agents}
    wrap = lambda f: {g: f(g) for g in agents} if multi else f(None)
    last = lambda m: m[-1] if isinstance(m, Memory) else m
    spc = lambda el: space(rng, el)
    ns = {'_get_action_space_': lambda self: wrap(lambda g: spc(action_sets[g])),
          '_get_goals_': lambda self: wrap(lambda g: spc(goals[g])),
          '_get_observation_space_': lambda self: wrap(lambda g: spc(obs[g])),
          '_get_memory_maxlen_': lambda self: 3,
          '_state_reset': lambda self: states[0],
          '_get_observation': lambda self, s, action=None: wrap(lambda g: s),
          '_state_step': lambda self, a: TransitionOutcome(rng.choice(states))}
    if evt != 'UnrestrictedActions':
        ns['_get_applicable_actions_from'] = lambda self, m: wrap(lambda g: spc(app[last(m), g]))
    if evt == 'Events':
        ns['_get_enabled_events_from'] = lambda self, m: spc(en[last(m)])
    if hist == 'Markovian':
        ns.pop('_get_memory_maxlen_')
    ns['_render_from'] = lambda self, m, **k: ('rendered', last(m), tuple(sorted(k.items())))
    G = globals()
    dom = type('Dom', (Domain, MultiAgent if multi else SingleAgent, Sequential, Simulation, G[evt], Goals, Initializable, G[hist], TransformedObservable, Rewards, Renderable), ns)()
    run.case((multi, agents, hist, evt, sorted(map(repr, app.items())), sorted(map(repr, goals.items()))))
    dom.reset()
    real = lambda s, g: app[s, g] if evt != 'UnrestrictedActions' else action_sets[g]
    for s in rng.sample(states, min(3, len(states))):
        m = Memory([rng.choice(states), s]) if hist != 'Markovian' else s
        dom.set_memory(m)
        other = rng.choice([x for x in states if x != s])
        om = Memory([rng.choice(states), other]) if hist != 'Markovian' else other
        for arg, st in ((None, s), (om, other), (m, s)):
            sp = dom.get_applicable_actions(arg) if arg is not None else dom.get_applicable_actions()
            for g in agents:
                one = sp[g] if multi else sp
                run.check({x for x in U if one.contains(x)} == real(st, g) and {x for x in U if x in one} == real(st, g), f'applicable-space:{evt}', lambda: (arg, st, g))
            for _ in range(6):
                ag = rng.sample(agents, rng.randint(1, len(agents)))
                a = {g: rng.choice(U) for g in ag} if multi else rng.choice(U)
                want = all(a[g] in real(st, g) for g in ag) if multi else a in real(st, None)
                run.hit('applicable_queries')
                got = dom.is_applicable_action(a, arg) if arg is not None else dom.is_applicable_action(a)
                run.check(bool(got) == want, f'is_applicable:{evt}:{"multi" if multi else "single"}:{"default" if arg is None else "given"}', lambda: (a, arg, st, want))
            ev = en[st] if evt == 'Events' else set()
            for x in U:
                run.hit('event_queries')
                got = dom.is_enabled_event(x, arg) if arg is not None else dom.is_enabled_event(x)
                run.check(bool(got) == (x in ev), f'is_enabled:{evt}', lambda: (x, arg, st, ev))
            es = dom.get_enabled_events(arg) if arg is not None else dom.get_enabled_events()
            run.check({x for x in U if es.contains(x)} == ev, f'enabled-space:{evt}')
            run.eq(dom.render(arg, k=3) if arg is not None else dom.render(k=3), ('rendered', st, (('k', 3),)), 'render-memory')
    # hit-only sequence: out-of-domain current memory is the latest one set
    for _ in range(8):
        o = {g: rng.choice(U) for g in agents} if multi else rng.choice(U)
        run.hit('goal_queries')
        run.check(bool(dom.is_goal(o)) == (all(o[g] in goals[g] for g in o) if multi else o in goals[None]), 'is_goal', (o, goals))
        run.hit('observation_queries')
        run.check(bool(dom.is_observation(o)) == (all(o[g] in obs[g] for g in o) if multi else o in obs[None]), 'is_observation', (o, obs))
        x = rng.choice(U)
        run.check(bool(dom.is_action(x)) == any(x in action_sets[g] for g in agents), 'is_action', (x, action_sets))


def constants(run, rng):
    calls = []
    k = rng.randint(2, 3)
    seq = [0]

    def mk(name, make):
        def f(self):
            calls.append((self.tag, name))
            return make(self)
        return f
    dep = {i: rng.random() < .5 for i in range(k)}
    N = {i: rng.randint(1, 5) for i in range(k)}
    ns = {'_get_action_space_': mk('get_action_space', lambda s: ListSpace([s.tag])),
          '_get_goals_': mk('get_goals', lambda s: ListSpace([s.tag])),
          '_get_observation_space_': mk('get_observation_space', lambda s: ListSpace([s.tag])),
          '_get_constraints_': mk('get_constraints', lambda s: [ImplicitConstraint(lambda m, a, n: True)]),
          '_is_transition_value_dependent_on_next_state_': mk('is_transition_value_dependent_on_next_state', lambda s: dep[s.tag]),
          '_get_next_state': lambda self, m, a: 0, '_get_transition_value': lambda self, m, a, n=None: TransitionValue(cost=1), '_is_terminal': lambda self, s: False,
          '_get_applicable_actions_from': lambda self, m: ListSpace([0])}
    which = rng.choice(['det', 'unc'])
    if which == 'det':
        ns['_get_initial_state_'] = mk('get_initial_state', lambda s: (s.tag, seq.append(0) or len(seq)))
    else:
        ns['_get_initial_state_distribution_'] = mk('get_initial_state_distribution', lambda s: DiscreteDistribution([((s.tag, i), .5) for i in range(2)]))
    ns['_get_memory_maxlen_'] = mk('_get_memory_maxlen', lambda s: N[s.tag])
    cls = type('Dom', (Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals, Constrained, DeterministicInitialized if which == 'det' else UncertainInitialized,
                       FiniteHistory, FullyObservable, PositiveCosts), ns)
    ds = []
    for i in range(k):
        d = cls()
        d.tag = i
        ds.append(d)
    first = {}
    names = ['get_action_space', 'get_goals', 'get_observation_space', 'get_constraints', 'is_transition_value_dependent_on_next_state',
             'get_initial_state' if which == 'det' else 'get_initial_state_distribution']
    if which == 'det':
        names.append('get_initial_state_distribution')
    script = []
    for _ in range(40):
        i, n = rng.randrange(k), rng.choice(names)
        v = getattr(ds[i], n)()
        script.append((i, n))
        run.hit('constant_queries')
        if (i, n) in first:
            run.check(v is first[i, n] or n.startswith('is_') and v == first[i, n], 'constant-changes:' + n, lambda: (i, n, v, first[i, n]))
        first[i, n] = v
        if n in ('get_action_space', 'get_goals', 'get_observation_space'):
            run.check(list(v.get_elements()) == [i], 'constant-shared:' + n, (i, list(v.get_elements())))
        elif n == 'get_initial_state':
            run.check(v[0] == i, 'constant-shared:' + n)
        elif n == 'get_initial_state_distribution':
            run.check(all(x[0] == i for x, _ in v.get_values()), 'constant-shared:' + n)
        elif n.startswith('is_'):
            run.check(v is dep[i], 'constant-shared:' + n)
        if rng.random() < .2:
            o = ds[i].reset()
            run.check(o[0] == i, 'reset-other-instance', (o, i))
            if which == 'det':
                run.check(o == ds[i].get_initial_state(), 'reset-initial-state')
    for c in set(calls):
        run.check(calls.count(c) == 1, 'constant-recomputed:' + c[1], (c, calls.count(c)))
    run.case((which, k, tuple(script)))


def values(run, rng):
    class C(Domain, SingleAgent, PositiveCosts): pass
    class R(Domain, SingleAgent, Rewards): pass
    c, r = C(), R()
    for _ in range(20):
        x = rng.choice([0, 1, -1, 2.5, -2.5, 1e-12, -1e-12, 10 ** 20, -3, 0.0, float('inf'), rng.uniform(-5, 5)])
        k = rng.randrange(4)
        t = TransitionValue(reward=x) if k == 0 else TransitionValue(cost=x) if k == 1 else TransitionValue(reward=x, cost=rng.randint(-9, 9)) if k == 2 else TransitionValue()
        want = (x, -x) if k in (0, 2) else (-x, x) if k == 1 else (0, 0)
        run.hit('value_checks')
        run.check((t.reward, t.cost) == want, 'reward-cost-opposite', (k, x, t))
        run.check(bool(c.check_value(t)) == (t.cost >= 0), 'positive-cost-check', t)
        run.check(r.check_value(t) is True, 'reward-check', t)
        run.case((k, x))
    o = {'a': 1, 'b': 2}
    for cls, f in ((EnvironmentOutcome, 'observation'), (TransitionOutcome, 'state')):
        e = cls(o)
        run.check(set(e.value) == {'a', 'b'} and all(v.cost == 0 and v.reward == 0 for v in e.value.values()) and e.termination is False and set(e.info) == {'a', 'b'}, 'outcome-defaults-multi')
        e = cls(3)
        run.check(e.value.cost == 0 and e.termination is False and e.info is None, 'outcome-defaults')
        v = TransitionValue(cost=4)
        e = cls(3, v, True, 'i')
        e2 = e.replace(**{f: 5})
        run.check(getattr(e2, f) == 5 and e2.value == v and e2.termination is True and e2.info == 'i' and getattr(e, f) == 3, 'outcome-replace', e2)
        run.check(set(e.asdict()) == {f, 'value', 'termination', 'info'} and e.asdict()[f] == 3 and e.astuple()[0] == 3 and e.astuple()[2] is True, 'outcome-asdict')


def constraints(run, rng):
    w = {(m, a, n): rng.randint(-3, 3) for m in range(3) for a in range(3) for n in list(range(3)) + [None]}
    for _ in range(30):
        ineq, b = rng.choice(['<', '<=', '>', '>=']), rng.randint(-3, 3)
        dep = rng.random() < .5
        c = BoundConstraint(lambda m, a, n: w[m, a, n], ineq, b, dep)
        i = ImplicitConstraint(lambda m, a, n: w[m, a, n] > 0, dep)
        m, a, n = rng.randrange(3), rng.randrange(3), rng.choice([0, 1, 2, None])
        v = w[m, a, n]
        run.hit('bound_checks')
        want = {'<': v < b, '<=': v <= b, '>': v > b, '>=': v >= b}[ineq]
        args = (m, a) if n is None else (m, a, n)
        run.check(c.check(*args) is want and c.evaluate(*args) == v, 'bound-constraint', (v, ineq, b, c.check(*args)))
        run.check(i.check(*args) is (v > 0), 'implicit-constraint')
        run.check(c.is_constraint_dependent_on_next_state() is dep and i.is_constraint_dependent_on_next_state() is dep, 'constraint-dependence')
        run.check(c.get_inequality() == ineq and c.get_bound() == b, 'constraint-getters')
        run.case((v, ineq, b))
    for bad in ('==', '=', '', '=>', '!='):
        try:
            BoundConstraint(lambda *x: 0, bad, 1)
            run.fail('bad-inequality-accepted', bad)
        except AssertionError:
            run.hit('rejected_inequality')


def defaults(run, rng):
    """What a domain answers when it declares nothing more, and that every argument reaches the declared function."""
    multi = rng.random() < .5
    wrap = (lambda x: {'a': x, 'b': x}) if multi else (lambda x: x)
    T = lambda s, a: ('law', s, repr(a))
    base = (Domain, MultiAgent if multi else SingleAgent, Sequential)
    ns = {'_get_observation_distribution': lambda self, state, action=None: SingleValueDistribution(wrap(T(state, action))),
          '_get_observation_space_': lambda self: wrap(ImplicitSpace(lambda o: o[0] == 'law')),
          '_get_next_state_distribution': lambda self, memory, action: DiscreteDistribution([((memory, repr(action), i), .5) for i in range(2)]),
          '_get_transition_value': lambda self, memory, action, next_state=None: wrap(TransitionValue(cost=abs(hash((memory, repr(action), next_state))) % 97)),
          '_is_terminal': lambda self, s: s == 0, '_get_initial_state_distribution_': lambda self: DiscreteDistribution([(0, .5), (1, .5)]),
          '_get_action_space_': lambda self: wrap(ImplicitSpace(lambda x: True)), '_get_applicable_actions_from': lambda self, m: wrap(ImplicitSpace(lambda x: True))}
    dom = type('Dom', base + (EnumerableTransitions, Actions, UncertainInitialized, Markovian, PartiallyObservable, PositiveCosts), ns)()
    run.eq(dom.is_transition_value_dependent_on_next_state(), True, 'default:value-dependence')
    for _ in range(6):
        s, a = rng.randint(0, 5), wrap(rng.randint(10, 15))
        run.hit('default_queries')
        for got, want in ((dom.get_observation_distribution(s, a), wrap(T(s, a))), (dom.get_observation_distribution(action=a, state=s), wrap(T(s, a))), (dom.get_observation_distribution(s), wrap(T(s, None)))):
            run.eq(got.sample(), want, 'default:observation-law')
        run.eq([x for x, _ in dom.get_next_state_distribution(s, a).get_values()], [(s, repr(a), i) for i in range(2)], 'default:next-state-law')
        n = rng.randint(20, 25)
        v = dom.get_transition_value(s, a, n)
        v = v['a'] if multi else v
        run.eq(v.cost, abs(hash((s, repr(a), n))) % 97, 'default:transition-value')
        v = dom.get_transition_value(memory=s, action=a)
        v = v['a'] if multi else v
        run.eq(v.cost, abs(hash((s, repr(a), None))) % 97, 'default:transition-value-no-next')
        run.eq(dom.is_terminal(s), s == 0, 'default:terminal')
        run.case((multi, s, repr(a)))
    o = wrap(('law', 1))
    run.eq(bool(dom.is_observation(o)), True, 'default:observation')
    run.eq(bool(dom.is_observation(wrap(('no',)))), False, 'default:observation')
    if multi:
        run.eq(bool(dom.is_observation({'a': ('law', 1), 'b': ('no', 1)})), False, 'default:observation-one-agent')
    obs = dom.reset()
    run.check(obs in (wrap(T(0, None)), wrap(T(1, None))), 'default:reset-observation', obs)
    s = 0 if obs == wrap(T(0, None)) else 1
    a = wrap(rng.randint(10, 15))
    out = dom.step(a)
    run.check(out.observation in [wrap(T((s, repr(a), i), a)) for i in range(2)], 'default:step-observation', lambda: (s, a, out))
    c = ImplicitConstraint(lambda m, a, n: True)
    b = BoundConstraint(lambda m, a, n: 1, '<', 2)
    run.check(c.is_constraint_dependent_on_next_state() is True and b.is_constraint_dependent_on_next_state() is True, 'default:constraint-dependence')
    for cls in (EnvironmentOutcome, TransitionOutcome):
        x = cls({'a': 1, 'b': 2}) if multi else cls(7)
        run.check(x.termination is False and (x.info is None or set(x.info.values()) == {None}), 'default:outcome', x)
    # hashed constants of independent instances
    Uns = type('Uns', base + (EnumerableTransitions, UnrestrictedActions, UncertainInitialized, Markovian, PartiallyObservable, Rewards), {k: f for k, f in ns.items() if k != '_get_applicable_actions_from'})()
    sp = Uns.get_applicable_actions(3)
    run.check((set(sp) == {'a', 'b'} if multi else sp.contains(4)) and list(Uns.get_enabled_events(3).get_elements() if hasattr(Uns.get_enabled_events(3), 'get_elements') else []) == [], 'default:unrestricted', sp)


GROUPS = [('defaults', defaults, 150, 1500), ('predicates', predicates, 500, 6000), ('constants', constants, 300, 3000), ('values', values, 60, 600), ('constraints', constraints, 60, 600)]

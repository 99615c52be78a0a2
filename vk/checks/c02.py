"""C02 domain lifecycle, with an independent model of the process (transition tables + memory discipline)."""
from skdecide import (Domain, Memory, EnvironmentOutcome, TransitionOutcome, TransitionValue, DiscreteDistribution, SingleValueDistribution,
                      ImplicitDistribution, Distribution)
from skdecide.builders.domain import *

RULE = ('random combinations of dynamics/initialization/memory/observability/agent characteristics over random transition tables; random '
        'interleavings of reset, step, sample, set_memory; non-trivial = at least 3 steps observed')
REQUIRED = {'steps': 2000, 'samples': 500, 'resets': 500, 'set_memory': 200, 'history_steps': 200, 'finite_history_steps': 200, 'memoryless_steps': 100}
ASSUMPTIONS = []


class Model:
    """The tables: everything the domain returns is looked up here, and every lookup is logged."""

    def __init__(self, rng, multi, kind):
        self.rng, self.multi = rng, multi
        self.ns, self.na = rng.randint(2, 6), rng.randint(1, 3)
        self.agents = ['a', 'b'][:rng.randint(1, 2)] if multi else None
        self.stype = rng.choice(['int', 'tuple', 'str'])
        self.det = rng.random() < .4
        self.log = []
        self.term = {s for s in range(self.ns) if rng.random() < .2}
        self.trans = {}
        self.uses_memory = rng.random() < .5

    def st(self, i):
        return {'int': i, 'tuple': (i, 'q'), 'str': f's{i}'}[self.stype]

    def idx(self, s):
        return {'int': lambda: s, 'tuple': lambda: s[0], 'str': lambda: int(s[1:])}[self.stype]()

    def key(self, mem, action):
        ms = tuple(self.idx(s) for s in mem) if isinstance(mem, Memory) else (None if mem is None else self.idx(mem))
        ac = tuple(sorted(action.items())) if isinstance(action, dict) else action
        return ms, ac

    def support(self, mem, action, det):
        k = self.key(mem, action)
        if k not in self.trans:
            n = 1 if det else self.rng.randint(1, 3)
            succ = self.rng.sample(range(self.ns), min(n, self.ns))
            self.trans[k] = [(self.st(i), self.rng.choice([.2, .5, 1.])) for i in succ]
        return self.trans[k]

    def value_num(self, mem, action, ns):
        return (hash((self.key(mem, action), self.idx(ns))) % 17)

    def wrap(self, f):
        return {g: f(g) for g in self.agents} if self.multi else f(None)

    def value(self, mem, action, ns):
        return self.wrap(lambda g: TransitionValue(cost=self.value_num(mem, action, ns) + (len(g) if g else 0)))

    def obs(self, s, action):
        return self.wrap(lambda g: ('obs', g, s, None if action is None else self.key(None, action)[1]))

    def actions(self):
        return self.wrap(lambda g: self.rng.randrange(self.na))


def build(run, rng):
    multi = rng.random() < .3
    dyn = rng.choice(['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions'])
    init = rng.choice(['Initializable', 'UncertainInitialized', 'DeterministicInitialized'])
    mem = rng.choice(['History', 'FiniteHistory', 'FiniteHistory', 'Markovian', 'Memoryless'])
    obsv = rng.choice(['PartiallyObservable', 'TransformedObservable', 'FullyObservable'])
    if multi and obsv == 'FullyObservable':
        obsv = 'TransformedObservable'
    M = Model(rng, multi, dyn)
    det = dyn == 'DeterministicTransitions'
    N = rng.randint(1, 4)
    inits = rng.sample(range(M.ns), rng.randint(1, min(3, M.ns)))
    if init == 'DeterministicInitialized':
        inits = inits[:1]
    order = []
    dists = {}

    def next_of(memory, action):
        sup = M.support(memory, action, det or (dyn in ('Environment', 'Simulation') and M.det))
        return sup

    ns = {}
    if dyn == 'Environment':
        def _state_step(self, action):
            sup = next_of(self._memory, action)
            s = rng.choices([x for x, _ in sup], [p for _, p in sup])[0]
            order.append(('state', copymem(self._memory), action, s))
            t = M.idx(s) in M.term
            return TransitionOutcome(s, M.value(self._memory, action, s), t, M.wrap(lambda g: ('info', s)))
        ns['_state_step'] = _state_step
    elif dyn == 'Simulation':
        def _state_sample(self, memory, action):
            sup = next_of(memory, action)
            s = rng.choices([x for x, _ in sup], [p for _, p in sup])[0]
            order.append(('state', copymem(memory), action, s))
            return TransitionOutcome(s, M.value(memory, action, s), M.idx(s) in M.term, M.wrap(lambda g: ('info', s)))
        ns['_state_sample'] = _state_sample
    else:
        if det:
            ns['_get_next_state'] = lambda self, memory, action: (order.append(('dist', copymem(memory), action)), next_of(memory, action)[0][0])[1]
        elif dyn == 'EnumerableTransitions':
            ns['_get_next_state_distribution'] = lambda self, memory, action: (order.append(('dist', copymem(memory), action)), DiscreteDistribution(list(next_of(memory, action))))[1]
        else:
            ns['_get_next_state_distribution'] = lambda self, memory, action: (order.append(('dist', copymem(memory), action)),
                                                                              ImplicitDistribution(lambda: rng.choices([x for x, _ in next_of(memory, action)], [p for _, p in next_of(memory, action)])[0]))[1]
        ns['_get_transition_value'] = lambda self, memory, action, next_state=None: (order.append(('value', copymem(memory), action, next_state)), M.value(memory, action, next_state))[1]
        ns['_is_terminal'] = lambda self, s: (order.append(('terminal', s)), M.idx(s) in M.term)[1]
    if init == 'Initializable':
        ns['_state_reset'] = lambda self: M.st(rng.choice(inits))
    elif init == 'UncertainInitialized':
        ns['_get_initial_state_distribution_'] = lambda self: DiscreteDistribution([(M.st(i), 1.) for i in inits])
    else:
        ns['_get_initial_state_'] = lambda self: M.st(inits[0])
    if obsv == 'PartiallyObservable':
        ns['_get_observation_distribution'] = lambda self, s, action=None: DiscreteDistribution([(M.obs(s, action), .5), (M.wrap(lambda g: ('noise', s)), .5)])
    elif obsv == 'TransformedObservable':
        ns['_get_observation'] = lambda self, s, action=None: M.obs(s, action)
    if mem == 'FiniteHistory':
        ns['_get_memory_maxlen_'] = lambda self: N
    g = globals()
    bases = (Domain, MultiAgent if multi else SingleAgent, Sequential, g[dyn], Actions, g[init], g[mem], g[obsv], PositiveCosts)
    dom = type('Dom', bases, ns)()

    def obs_ok(o, s, action):
        if obsv == 'FullyObservable':
            return o == s
        ok = o == M.obs(s, action)
        return ok or (obsv == 'PartiallyObservable' and o == M.wrap(lambda g: ('noise', s)))
    return dom, M, dict(dyn=dyn, init=init, mem=mem, obs=obsv, multi=multi, N=N, inits=[M.st(i) for i in inits], obs_ok=obs_ok, det=det, order=order, support=next_of)


def copymem(m):
    return Memory(m, maxlen=m.maxlen) if isinstance(m, Memory) else m


def lst(m):
    return list(m) if isinstance(m, Memory) else m


def expected(past, spec):
    if spec['mem'] == 'History':
        return list(past)
    if spec['mem'] == 'FiniteHistory':
        return list(past)[-spec['N']:]
    return None if spec['mem'] == 'Memoryless' else past[-1]


def check_outcome(run, dom, M, spec, before, action, out, what):
    """before = expected memory (list / state / None) the transition must start from"""
    order = spec['order']
    mech = f"{what}:{spec['mem']}"
    run.check(isinstance(out, EnvironmentOutcome), mech + ':type', type(out), abort=True)
    ev = [e for e in order if e[0] in ('state', 'dist')]
    run.check(len(ev) == 1, mech + ':one-transition-draw', order)
    run.check(ev and lst(ev[0][1]) == before and ev[0][2] == action, mech + ':transition-source', lambda: f'{spec["dyn"]} model called with {ev[:1]}, expected memory {before} action {action}')
    mm = Memory(before) if isinstance(before, list) else before
    sup = [s for s, _ in spec['support'](mm, action)]
    # identify the drawn state from the observation
    cands = [s for s in sup if spec['obs_ok'](out.observation, s, action)]
    if not run.check(len(cands) >= 1, mech + ':observation', lambda: f'observation {out.observation} matches no successor {sup} of memory {before} under {action} (order {order})', abort=True):
        return None
    if spec['dyn'] in ('Environment', 'Simulation'):
        s = ev[0][3]
        run.check(s in cands, mech + ':observation-of-drawn-state', (s, out.observation))
        run.check(out.info == M.wrap(lambda g: ('info', s)), mech + ':info', out.info)
    else:
        v = [e for e in order if e[0] == 'value']
        run.check(len(v) == 1 and lst(v[0][1]) == before and v[0][2] == action, mech + ':value-source', v)
        s = v[0][3] if v else cands[0]
        run.check(s in cands, mech + ':value-of-drawn-state', (s, cands))
        t = [e for e in order if e[0] == 'terminal']
        run.check(len(t) == 1 and t[0][1] == s, mech + ':terminal-of-drawn-state', (t, s))
    run.check(out.termination == (M.idx(s) in M.term), mech + ':termination', (out, M.term))
    want = M.value(mm, action, s)
    got = out.value
    same = (all(got[k].cost == want[k].cost and got[k].reward == -want[k].cost for k in want) and set(got) == set(want)) if M.multi else (got.cost == want.cost and got.reward == -want.cost)
    run.check(same, mech + ':value', (got, want))
    return s


def lifecycle(run, rng):
    dom, M, spec = build(run, rng)
    order = spec['order']
    past, steps = None, 0
    trace = []
    for _ in range(rng.randint(4, 25)):
        op = rng.choice(['reset', 'step', 'step', 'step', 'sample', 'set']) if past is not None else 'reset'
        if op in ('sample', 'set') and spec['dyn'] == 'Environment':
            op = 'step'
        del order[:]
        if op == 'reset':
            o = dom.reset()
            run.hit('resets')
            cand = [s for s in spec['inits'] if spec['obs_ok'](o, s, None)]
            if not run.check(cand, 'reset:initial-observation', (o, spec['inits'])):
                return
            past = [cand[0]]
            trace.append('r')
        elif op == 'step':
            a = M.actions()
            before = expected(past, spec)
            out = dom.step(a)
            s = check_outcome(run, dom, M, spec, before, a, out, 'step')
            past = past + [s]
            steps += 1
            run.hit('steps')
            run.hit({'History': 'history_steps', 'FiniteHistory': 'finite_history_steps', 'Markovian': 'markov_steps', 'Memoryless': 'memoryless_steps'}[spec['mem']])
            trace.append('s')
        elif op == 'sample':
            before_cur = expected(past, spec)
            k = rng.randint(1, 5)
            fake = [M.st(rng.randrange(M.ns)) for _ in range(k)]
            em = expected(fake, spec)
            arg = Memory(em) if isinstance(em, list) else em
            a = M.actions()
            out = dom.sample(arg, a)
            check_outcome(run, dom, M, spec, em, a, out, 'sample')
            run.check(lst(arg) == em, 'sample:modifies-argument', (arg, em))
            run.hit('samples')
            # the current memory is untouched: the next step must start from it
            del order[:]
            a = M.actions()
            out = dom.step(a)
            s = check_outcome(run, dom, M, spec, before_cur, a, out, 'step-after-sample')
            past = past + [s]
            steps += 1
            run.hit('steps')
            trace.append('p')
        else:
            k = rng.randint(1, 5)
            fake = [M.st(rng.randrange(M.ns)) for _ in range(k)]
            em = expected(fake, spec)
            arg = Memory(em, maxlen=rng.choice([None, spec['N'] if spec['mem'] == 'FiniteHistory' else None])) if isinstance(em, list) else em
            dom.set_memory(arg)
            past = fake
            run.hit('set_memory')
            for _ in range(rng.randint(1, 6)):
                del order[:]
                a = M.actions()
                before = expected(past, spec)
                out = dom.step(a)
                s = check_outcome(run, dom, M, spec, before, a, out, 'step-after-set')
                past = past + [s]
                steps += 1
                run.hit('steps')
            run.check(lst(arg) == em, f"set_memory:argument-modified-by-step:{spec['mem']}", lambda: (arg, em))
            trace.append('m')
    run.case((spec['dyn'], spec['init'], spec['mem'], spec['obs'], spec['multi'], spec['N'], ''.join(trace), M.ns), steps >= 3)


def getters(run, rng):
    """distribution / deterministic views of one model agree"""
    dom, M, spec = build(run, rng)
    run.require(spec['dyn'] in ('UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions'))
    run.case((spec['dyn'], spec['init'], spec['mem'], spec['obs'], M.ns, M.na, M.stype))
    for _ in range(6):
        past = [M.st(rng.randrange(M.ns)) for _ in range(rng.randint(1, 4))]
        em = expected(past, spec)
        arg = Memory(em) if isinstance(em, list) else em
        a = M.actions()
        d = dom.get_next_state_distribution(arg, a)
        sup = spec['support'](Memory(em) if isinstance(em, list) else em, a)
        if spec['det']:
            run.eq(dom.get_next_state(arg, a), sup[0][0], 'next-state')
            run.check([(x, p) for x, p in d.get_values()] == [(sup[0][0], 1.0)], 'deterministic-distribution', d.get_values())
        elif spec['dyn'] == 'EnumerableTransitions':
            run.eq(d.get_values(), sup, 'distribution')
        run.check(d.sample() in [s for s, _ in sup], 'distribution-support')
        s = M.st(rng.randrange(M.ns))
        run.eq(dom.is_terminal(s), M.idx(s) in M.term, 'is_terminal')
        o = dom.get_observation_distribution(s, a).sample()
        run.check(spec['obs_ok'](o, s, a), 'observation-distribution', (o, s, a))
        if spec['obs'] != 'PartiallyObservable':
            run.check(spec['obs_ok'](dom.get_observation(s, a), s, a), 'observation')
            vals = dom.get_observation_distribution(s, a).get_values()
            run.check(len(vals) == 1 and spec['obs_ok'](vals[0][0], s, a) and vals[0][1] == 1, 'observation-single')
        if spec['init'] != 'Initializable':
            vals = dom.get_initial_state_distribution().get_values()
            run.check({v for v, p in vals if p > 0} == set(spec['inits']), 'initial-distribution', vals)
        if spec['init'] == 'DeterministicInitialized':
            run.eq(dom.get_initial_state(), spec['inits'][0], 'initial-state')
        v = dom.get_transition_value(arg, a, s)
        run.check((v['a'].cost if M.multi else v.cost) == M.value_num(Memory(em) if isinstance(em, list) else em, a, s) + (1 if M.multi else 0), 'transition-value')
        run.hit('getter_rounds')


GROUPS = [('lifecycle', lifecycle, 3000, 30000), ('getters', getters, 800, 8000)]

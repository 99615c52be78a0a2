"""C22 Evolutionary algorithms only evaluate legal encodings, stay within their budget and return the best one they evaluated."""
from vk import rcpspgen as G
from vk.dostubs import quiet, install, empty_data_dirs
from vk.checks.c21 import close, dom

install()
with empty_data_dirs(), quiet():
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import Problem, Solution, EncodingRegister, ObjectiveRegister, TypeAttribute, ObjectiveHandling, ModeOptim, TypeObjective
    from skdecide.builders.discrete_optimization.generic_tools.ea.ga import Ga, DeapMutation, DeapCrossover, DeapSelection
    from skdecide.builders.discrete_optimization.generic_tools.ea.alternating_ga import AlternatingGa
    from skdecide.builders.discrete_optimization.generic_tools.ea.nsga import Nsga
    from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation
    from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip

RULE = 'random toy problems with a permutation, boolean, integer and mixed-arity encoding and project scheduling problems; random operators, selections, rates, population sizes, objectives, weights; non-trivial = more than one distinct objective value evaluated'
REQUIRED = {'evaluated': 40000, 'ga': 300, 'ga:improved': 150, 'nsga': 80, 'nsga:aligned': 20, 'alternating': 60, 'switches': 60, 'ga:rcpsp': 60, 'ga:modes': 20, 'custom-mutation': 40, 'default-objectives': 40, 'single-weight': 40}
ASSUMPTIONS = ['encodings of at least two elements (limit of the DEAP crossover operators)', 'roulette and universal sampling selection only with positive fitness (their precondition in DEAP)']

ATTR = {'perm': 'perm', 'bits': 'bits', 'levels': 'lev', 'flat': 'flat'}


class Toy(Problem):
    """Encoding names differ from attribute names (as 'levels' and 'lev')."""

    def __init__(self, rng, n=None):
        n = self.n = n or rng.randint(2, 7)
        self.cost = [[rng.randint(0, 9) for _ in range(n)] for _ in range(n)]
        self.gain = [rng.randint(-4, 6) for _ in range(n)]
        self.ar = [rng.randint(1, 4) for _ in range(n)]
        self.k = rng.randint(2, 4)
        self.lev = [[rng.randint(0, 6) for _ in range(5)] for _ in range(n)]
        self.weights = {'order': rng.choice([1, 2, -1]), 'gain': rng.choice([1, 3, -2]), 'level': rng.choice([1, -1, 0.5])}
        self.handling = rng.choice([ObjectiveHandling.SINGLE, ObjectiveHandling.AGGREGATE])
        self.sense = ModeOptim.MAXIMIZATION
        self.fix = self.base()
        self.log = []       # (encoding, vector, values)

    def base(self):
        return {'perm': tuple(range(self.n)), 'bits': (0,) * self.n, 'lev': (0,) * self.n, 'flat': (0,) * self.n}

    def legal(self, a, v):
        n = self.n
        if a == 'perm':
            return sorted(v) == list(range(n))
        if len(v) != n or any(x != int(x) for x in v):
            return False
        hi = {'bits': [2] * n, 'lev': self.ar, 'flat': [self.k] * n}[a]
        return all(0 <= x < h for x, h in zip(v, hi))

    def values(self, d):
        n = self.n
        return {'order': 1 + sum(self.cost[i][x] for i, x in enumerate(d['perm'])) + sum(self.lev[i][x] for i, x in enumerate(d['flat'])),
                'gain': sum(g for g, b in zip(self.gain, d['bits']) if b) - sum(d['flat']),
                'level': sum(self.lev[i][x] for i, x in enumerate(d['lev'])) + 0.25 * sum(1 for i in range(n) if d['perm'][i] == i)}

    def evaluate(self, s):
        return self.values(s.d())

    def evaluate_from_encoding(self, vector, name):
        vec = tuple(int(x) for x in vector)
        ok = name in self.fix and self.legal(name, vector)
        v = self.values({**self.fix, name: vec}) if ok else {'order': 1, 'gain': 0, 'level': 0}
        self.log.append((name, tuple(vector), v, ok))
        return v

    def set_fixed_attributes(self, name, s):
        a = name['name'] if isinstance(name, dict) else ATTR[name]
        self.log.append(('fix', a, tuple(getattr(s, a)), True))
        self.fix[a] = tuple(getattr(s, a))

    def get_dummy_solution(self):
        return Sol(self, **self.base())

    def satisfy(self, s):
        return all(self.legal(a, v) for a, v in s.d().items())

    def get_attribute_register(self):
        return EncodingRegister({'perm': {'name': 'perm', 'range': range(self.n), 'n': self.n, 'type': [TypeAttribute.PERMUTATION]},
                                 'bits': {'name': 'bits', 'n': self.n, 'type': [TypeAttribute.LIST_BOOLEAN]},
                                 'levels': {'name': 'lev', 'n': self.n, 'arrities': self.ar, 'type': [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY]},
                                 'flat': {'name': 'flat', 'n': self.n, 'arrity': self.k, 'type': [TypeAttribute.LIST_INTEGER]}})

    def get_solution_type(self):
        return Sol

    def get_objective_register(self):
        return ObjectiveRegister(objective_sense=self.sense, objective_handling=self.handling,
                                 dict_objective_to_doc={k: {'type': TypeObjective.OBJECTIVE, 'default_weight': self.weights[k]} for k in ('order', 'gain', 'level')})


class Sol(Solution):
    """Attributes that are not given are those that the problem holds fixed."""

    def __init__(self, problem, perm=None, bits=None, lev=None, flat=None):
        self.problem = problem
        for k, v in (('perm', perm), ('bits', bits), ('lev', lev), ('flat', flat)):
            setattr(self, k, list(problem.fix[k] if v is None else v))

    def d(self):
        return {k: tuple(int(x) for x in getattr(self, k)) for k in ('perm', 'bits', 'lev', 'flat')}

    def copy(self):
        return Sol(self.problem, **{k: list(getattr(self, k)) for k in ('perm', 'bits', 'lev', 'flat')})

    lazy_copy = copy

    def change_problem(self, p):
        self.problem = p


CROSS = {TypeAttribute.PERMUTATION: [None, DeapCrossover.CX_UNIFORM_PARTIALY_MATCHED, DeapCrossover.CX_ORDERED, DeapCrossover.CX_PARTIALY_MATCHED]}
OTHER = [None, DeapCrossover.CX_UNIFORM, DeapCrossover.CX_ONE_POINT, DeapCrossover.CX_TWO_POINT]
NAMES = ['order', 'gain', 'level']


def settings(rng, toy, enc, positive):
    """Random operators for an encoding of the toy problem -> (keyword arguments, attribute name)."""
    spec = toy.get_attribute_register().dict_attribute_to_type[enc]
    t = spec['type'][0]
    kw = {'crossover': rng.choice(CROSS.get(t, OTHER)), 'mut_rate': rng.choice([0.05, 0.3, 0.9]), 'crossover_rate': rng.choice([0.1, 0.6, 0.9]), 'deap_verbose': False}
    kw['encoding'] = rng.choice([enc, enc, dict(spec)]) if enc != 'perm' else rng.choice([enc, None, dict(spec)])
    mut = None
    if rng.random() < 0.4:
        if t == TypeAttribute.PERMUTATION:
            C = rng.choice([PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation])
            mut = C.build(toy, toy.get_dummy_solution(), attribute='perm')
        elif t == TypeAttribute.LIST_BOOLEAN:
            mut = MutationBitFlip.build(toy, toy.get_dummy_solution(), attribute='bits', probability_flip=0.3)
    if mut is None and rng.random() < 0.4:
        mut = {TypeAttribute.PERMUTATION: DeapMutation.MUT_SHUFFLE_INDEXES, TypeAttribute.LIST_BOOLEAN: rng.choice([DeapMutation.MUT_FLIP_BIT, DeapMutation.MUT_UNIFORM_INT])}.get(t, DeapMutation.MUT_UNIFORM_INT)
    kw['mutation'] = mut
    return kw, spec['name']


def pick_objectives(rng, toy):
    """-> (keyword arguments, value of a dictionary of objective values as the documentation describes it)."""
    h = rng.choice([None, ObjectiveHandling.SINGLE, ObjectiveHandling.AGGREGATE, ObjectiveHandling.AGGREGATE])
    form = rng.choice(['default', 'str', 'list', 'list'])
    if form == 'default':
        names, kw = NAMES, {}
        weights = [toy.weights[k] for k in names]
    elif form == 'str':
        names = [rng.choice(NAMES)]
        kw, weights = {'objectives': names[0]}, [1]
    else:
        names = rng.sample(NAMES, rng.randint(1, 3))
        kw, weights = {'objectives': list(names)}, [1] * len(names)
    if form != 'default' and rng.random() < 0.7:
        weights = [rng.choice([1, 2, -1, -3, 0.5]) for _ in names]
        kw['objective_weights'] = list(weights)
    if h is not None or rng.random() < 0.5:
        kw['objective_handling'] = h
    single = kw.get('objective_handling') in (None, ObjectiveHandling.SINGLE)
    if single:
        return kw, (lambda v: weights[0] * v[names[0]]), single, form, weights
    return kw, (lambda v: sum(w * v[k] for w, k in zip(weights, names))), single, form, weights


def default_fit(toy, v):
    if toy.handling == ObjectiveHandling.SINGLE:
        return toy.weights['order'] * v['order']
    return sum(toy.weights[k] * v[k] for k in NAMES)


def evaluated(run, log, what):
    ev = [e for e in log if e[0] != 'fix']
    for name, vec, _, ok in ev:
        run.hit('evaluated')
        run.check(ok, f'{what}:illegal-vector:{name}', lambda: f'{vec}')
    return ev


def g_ga(run, rng):
    toy = Toy(rng)
    okw, val, single, form, weights = pick_objectives(rng, toy)
    enc = rng.choice(['perm', 'bits', 'levels', 'flat'])
    for a, v in toy.base().items():        # other attributes are held fixed at something else than the default
        if rng.random() < 0.5:
            toy.fix[a] = tuple(rng.sample(v, toy.n)) if a == 'perm' else tuple(rng.randrange({'bits': [2] * toy.n, 'lev': toy.ar, 'flat': [toy.k] * toy.n}[a][i]) for i in range(toy.n))
    positive = single and form != 'default' and okw.get('objectives') in ('order', ['order']) and weights[0] > 0
    kw, attr = settings(rng, toy, enc, positive)
    if 'objective_weights' not in okw and form != 'default' and single and rng.random() < 0.5:
        pass
    sel = [None, DeapSelection.SEL_TOURNAMENT, DeapSelection.SEL_RANDOM, DeapSelection.SEL_BEST, DeapSelection.SEL_WORST]
    if positive:
        sel += [DeapSelection.SEL_ROULETTE, DeapSelection.SEL_STOCHASTIC_UNIVERSAL_SAMPLING] * 2
    kw['selection'] = rng.choice(sel)
    pop = rng.choice([2, 3, 5, 10, 20])
    ev_max = pop * rng.randint(1, 8) + rng.randint(0, pop - 1)
    kw.update(okw, pop_size=pop, max_evals=ev_max, tournament_size=rng.choice([None, 0.1, 0.5, 1.0]))
    with quiet():
        ga = Ga(problem=toy, **kw)
        rs = ga.solve()
    ev = evaluated(run, toy.log, 'ga')
    run.hit('ga')
    run.hit('custom-mutation', int(kw['mutation'] is not None and not isinstance(kw['mutation'], DeapMutation)))
    run.hit('default-objectives', int(form == 'default'))
    run.hit('single-weight', int(single and weights[0] != 1))
    run.check({e[0] for e in ev} == {attr}, 'ga:encoding', lambda: f'{ {e[0] for e in ev} } want {attr}')
    run.check(pop <= len(ev) <= pop + ev_max, 'ga:budget', lambda: f'{len(ev)} evaluations, population {pop}, maximum {ev_max}')
    best = max(val(e[2]) for e in ev)
    s, f = rs.list_solution_fits[0]
    run.check(len(rs.list_solution_fits) == 1 and rs.get_best_solution() is s, 'ga:result', lambda: f'{rs.list_solution_fits}')
    d = s.d()
    run.check(toy.satisfy(s), 'ga:result-illegal', lambda: f'{d}')
    run.check(all(d[a] == toy.fix[a] for a in d if a != attr), 'ga:fixed-attributes', lambda: f'{d} {toy.fix}')
    run.check(d[attr] in {e[1] for e in ev}, 'ga:result-not-evaluated', lambda: f'{d[attr]}')
    v = toy.values(d)
    run.check(close(val(v), best), 'ga:not-the-best-evaluated', lambda: f'{val(v)} best {best} {kw}')
    run.check(close(f, default_fit(toy, v)), 'ga:stored-fitness', lambda: f'{f} want {default_fit(toy, v)}')
    run.hit('ga:improved', int(best > max(val(e[2]) for e in ev[:pop])))
    run.case((enc, sorted(map(str, kw.items())), toy.cost), len({val(e[2]) for e in ev}) > 1)


def g_nsga(run, rng):
    toy = Toy(rng)
    aligned = rng.random() < 0.4
    names = rng.sample(NAMES, rng.randint(2, 3))
    weights = [rng.choice([1, 2, -1, -3]) for _ in names]
    if aligned:        # every objective is a multiple of the same one: a total order, so that an elitist selection keeps a best individual
        sgn = rng.choice([1, -1])
        base = toy.values
        toy.values = lambda d: (lambda x: {'order': 3 * x, 'gain': x, 'level': 0.5 * x})(base(d)['order'] + base(d)['gain'] + base(d)['level'])
        weights = [sgn * abs(w) for w in weights]
    given = rng.random() < 0.8 or aligned and weights[0] < 0
    if not given:
        weights = [1] * len(names)
    enc = rng.choice(['perm', 'bits', 'levels', 'flat'])
    kw, attr = settings(rng, toy, enc, False)
    pop = rng.choice([4, 6, 10, 16])
    ev_max = pop * rng.randint(1, 8)
    kw.update(pop_size=pop, max_evals=ev_max, objectives=list(names), selection=None)
    if given:
        kw['objective_weights'] = list(weights)
    with quiet():
        rs = Nsga(problem=toy, **kw).solve()
    ev = evaluated(run, toy.log, 'nsga')
    run.hit('nsga')
    run.check({e[0] for e in ev} == {attr}, 'nsga:encoding', lambda: f'{ {e[0] for e in ev} } want {attr}')
    run.check(pop <= len(ev) <= pop + ev_max, 'nsga:budget', lambda: f'{len(ev)} evaluations, population {pop}, maximum {ev_max}')
    run.eq(len(rs.list_solution_fits), pop, 'nsga:population-size')
    vec = lambda v: tuple(w * v[k] for w, k in zip(weights, names))
    seen = {e[1] for e in ev}
    got = []
    for s, f in rs.list_solution_fits:
        d = s.d()
        run.check(toy.satisfy(s) and d[attr] in seen, 'nsga:result-not-evaluated', lambda: f'{d}')
        w = vec(toy.values(d))
        run.check(f.size == len(names) and all(close(a, b) for a, b in zip(f.vector_fitness, w)), 'nsga:stored-fitness', lambda: f'{f.vector_fitness} want {w}')
        got.append(w)
    b = rs.best_solution.d()
    wb = vec(toy.values(b))
    run.check(not any(dom(w, wb, 1) for w in got), 'nsga:best-is-dominated', lambda: f'{wb} {got}')
    if aligned:
        run.hit('nsga:aligned')
        top = max(vec(e[2])[0] for e in ev)
        run.check(any(close(w[0], top) for w in got), 'nsga:best-individual-lost', lambda: f'{top} {got}')
    run.case((enc, sorted(map(str, kw.items())), toy.cost), len(set(got)) > 1)


def g_alt(run, rng):
    toy = Toy(rng)
    encs = rng.sample(['perm', 'bits', 'levels', 'flat'], rng.randint(1, 3))
    okw, val, single, form, weights = pick_objectives(rng, toy)
    k = len(encs)
    st = [settings(rng, toy, e, False) for e in encs]
    kw = dict(okw, encodings=[s[0]['encoding'] or e for s, e in zip(st, encs)], pop_size=rng.choice([2, 4, 8]), mut_rate=rng.choice([None, 0.2, 0.8]), crossover_rate=rng.choice([None, 0.5]), deap_verbose=False)
    if rng.random() < 0.5:
        kw['mutations'] = [s[0]['mutation'] for s in st]
    if rng.random() < 0.5:
        kw['crossovers'] = [s[0]['crossover'] for s in st]
    if rng.random() < 0.5:
        kw['selections'] = [rng.choice([None, DeapSelection.SEL_BEST, DeapSelection.SEL_RANDOM]) for _ in st]
    sub = [kw['pop_size'] * rng.randint(1, 4) for _ in encs]
    kw.update(sub_evals=sub, max_evals=rng.randint(1, 3 * sum(sub)), tournament_size=rng.choice([None, 0.5]))
    with quiet():
        rs = AlternatingGa(problem=toy, **kw).solve()
    ev = evaluated(run, toy.log, 'alternating')
    run.hit('alternating')
    # phases: maximal runs between two calls of set_fixed_attributes
    phases, cur = [], []
    for e in toy.log:
        if e[0] == 'fix':
            if cur:
                phases.append(cur)
            cur = []
        else:
            cur.append(e)
    if cur:
        phases.append(cur)
    want, tot = [], 0
    while tot < kw['max_evals']:
        want.append(st[len(want) % k][1])
        tot += sub[(len(want) - 1) % k]
    run.check([p[0][0] for p in phases] == want and all(len({e[0] for e in p}) == 1 for p in phases), 'alternating:order-of-encodings', lambda: f'{[p[0][0] for p in phases]} want {want} {kw}')
    run.hit('switches', len(phases) - 1)
    for i, p in enumerate(phases):
        m = kw['pop_size'] + sub[i % k]
        run.check(kw['pop_size'] <= len(p) <= m, 'alternating:budget', lambda: f'phase {i}: {len(p)} evaluations, at most {m}')
    # the attribute of a phase is fixed to the best vector of that phase
    run.require(phases)
    state, i = toy.base(), 0
    rest = [e for e in toy.log]
    for e in toy.log:
        if e[0] == 'fix' and i and e[1] == phases[i - 1][0][0]:
            b = max(val(x[2]) for x in phases[i - 1])
            run.check(any(x[1] == e[2] and close(val(x[2]), b) for x in phases[i - 1]), 'alternating:phase-keeps-its-best', lambda: f'phase {i - 1}')
        if e[0] != 'fix' and i < len(phases) and e is phases[i][0]:
            i += 1
    s = rs.get_best_solution()
    d = s.d()
    run.check(toy.satisfy(s), 'alternating:result-illegal', lambda: f'{d}')
    last = phases[-1]
    b = max(val(e[2]) for e in last)
    run.check(close(val(toy.values(d)), b), 'alternating:result-is-best-of-last-phase', lambda: f'{val(toy.values(d))} want {b}')
    run.check(close(rs.list_solution_fits[0][1], default_fit(toy, toy.values(d))), 'alternating:stored-fitness', '')
    firsts = [max(val(e[2]) for e in p) for p in phases]
    run.case((encs, sorted(map(str, kw.items())), toy.cost), len({val(e[2]) for e in ev}) > 1 and len(firsts) > 1)


def g_rcpsp(run, rng):
    """The same on project scheduling problems, whose modes are numbered from one."""
    p = G.gen(rng, calendar=False, n=rng.randint(2, 6), tight=False)
    run.require(not any(v == 0 for v in p.res.values()) and any(m['duration'] for ms in p.modes.values() for m in ms.values()))
    run.require(all(any(m['duration'] > 0 for m in ms.values()) for j, ms in p.modes.items() if 1 < j < p.n + 2))
    with quiet():
        model = G.build(p)
    modes = p.multi and rng.random() < 0.6
    ar = [len(p.modes[j]) for j in range(2, p.n + 2)]
    attr = 'rcpsp_modes' if modes else 'rcpsp_permutation'
    enc = attr if not modes else rng.choice(['rcpsp_modes_arrity_fix', 'rcpsp_modes'] if len(set(ar)) == 1 else ['rcpsp_modes_arrity_fix'])
    perm, md = G.rand_perm(rng, p), G.rand_modes(rng, p)
    if p.multi:
        model.set_fixed_modes(md)
        model.set_fixed_permutation(perm)
    else:
        md = [1] * p.n
    log, real = [], model.evaluate_from_encoding

    def spy(v, name):
        out = real(v, name)
        log.append((name, tuple(v), out))
        return out
    model.evaluate_from_encoding = spy
    pop = rng.choice([4, 8])
    with quiet():
        rs = Ga(problem=model, encoding=enc, objectives=['makespan'], objective_weights=[-1], pop_size=pop, max_evals=pop * rng.randint(1, 5), mut_rate=rng.choice([0.1, 0.5]), deap_verbose=False).solve()
    run.hit('ga:rcpsp')
    run.hit('ga:modes', int(modes))
    for name, v, out in log:
        run.hit('evaluated')
        legal = name == attr and (all(0 <= x < a for x, a in zip(v, ar)) and len(v) == p.n if modes else sorted(v) == list(range(p.n)))
        if not run.check(legal, 'ga:rcpsp-illegal-vector', lambda: f'{name} {v} {ar}'):
            return
        ok, sch = G.sgs(p, perm if modes else list(v), [x + 1 for x in v] if modes else md)
        if ok:
            run.check(out['makespan'] == sch[p.sink][1], 'ga:rcpsp-evaluation', lambda: f'{out} want {sch} {p}')
    s = rs.get_best_solution()
    best = min(o['makespan'] for _, _, o in log)
    with quiet():
        got = model.evaluate(s.copy())
    run.check(got['makespan'] == best, 'ga:rcpsp-best', lambda: f'{got} best {best} {p}')
    gm = [int(x) for x in s.rcpsp_modes]
    gp = [int(x) for x in s.rcpsp_permutation]
    seen = {v for _, v, _ in log}
    run.check((tuple(x - 1 for x in gm) if modes else tuple(gp)) in seen, 'ga:rcpsp-result-not-evaluated', lambda: f'{gm} {gp}')
    run.check(gp == list(perm) if modes else gm == list(md), 'ga:rcpsp-fixed-attributes', lambda: f'{gm} {gp} {md} {perm}')
    run.case((repr(p), enc), len({o['makespan'] for _, _, o in log}) > 1)


GROUPS = [('ga', g_ga, 1500, 15000), ('nsga', g_nsga, 400, 3000), ('alternating', g_alt, 300, 3000), ('rcpsp', g_rcpsp, 150, 1500)]

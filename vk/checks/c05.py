"""C05 solver/domain matching against an independent lattice model of the characteristics."""
import random

from skdecide import Domain, Solver, DeterministicPolicySolver
from skdecide.domains import (RLDomain, MultiAgentRLDomain, StatelessSimulatorDomain, MDPDomain, POMDPDomain, GoalMDPDomain, GoalPOMDPDomain,
                              DeterministicPlanningDomain)
from skdecide.builders.domain import *
from skdecide.utils import match_solvers, get_registered_solvers, get_registered_domains, load_registered_solver, load_registered_domain

RULE = 'random characteristic combinations for the domain and for the solver requirement (families as chains, custom mixins, predefined domain classes); non-trivial = requirement differs from the default'
REQUIRED = {'accepted': 200, 'rejected': 200, 'match_calls': 100, 'registry_matches': 10, 'partial_accepted': 100, 'partial_rejected': 100}
ASSUMPTIONS = ['solvers whose compiled or third-party dependency is missing here cannot be loaded from the registry and are not matched']

CH = {'agent': [MultiAgent, SingleAgent], 'conc': [Parallel, Sequential],
      'dyn': [Environment, Simulation, UncertainTransitions, EnumerableTransitions, DeterministicTransitions],
      'ev': [Events, Actions, UnrestrictedActions], 'mem': [History, FiniteHistory, Markovian, Memoryless],
      'obs': [PartiallyObservable, TransformedObservable, FullyObservable], 'val': [Rewards, PositiveCosts]}
OPT = {'goals': [None, Goals], 'init': [None, Initializable, UncertainInitialized, DeterministicInitialized], 'cons': [None, Constrained], 'rend': [None, Renderable]}
PRE = {RLDomain: (1, 1, 0, 1, 2, 1, 0, 0, 1, 0, 0), MultiAgentRLDomain: (0, 1, 0, 1, 2, 1, 0, 0, 1, 0, 0), StatelessSimulatorDomain: (1, 1, 1, 1, 2, 1, 0, 0, 0, 0, 0),
       MDPDomain: (1, 1, 3, 1, 2, 2, 0, 0, 3, 0, 0), POMDPDomain: (1, 1, 3, 1, 2, 0, 0, 0, 2, 0, 0), GoalMDPDomain: (1, 1, 3, 1, 2, 2, 1, 1, 3, 0, 0),
       GoalPOMDPDomain: (1, 1, 3, 1, 2, 0, 1, 1, 2, 0, 0), DeterministicPlanningDomain: (1, 1, 4, 1, 2, 2, 1, 1, 3, 0, 0)}
FAM = list(CH) + list(OPT)
ALL = {**CH, **OPT}


class MixA: pass
class MixB(MixA): pass


def build(rng, name, bias):
    """returns (class, level vector, mix level)"""
    vec = tuple((rng.randrange(len(ALL[f])) if rng.random() < .6 else (0 if bias == 'low' else len(ALL[f]) - 1)) for f in FAM)
    if rng.random() < .25:
        base = rng.choice(list(PRE))
        lv = list(PRE[base])
        bases = [base]
        if rng.random() < .6:                 # refine the predefined class
            for k in rng.sample(range(len(FAM)), 2):
                if vec[k] > lv[k]:
                    lv[k] = vec[k]
                    bases.append(ALL[FAM[k]][vec[k]])
        vec = tuple(lv)
    else:
        bases = [Domain] + [ALL[f][l] for f, l in zip(FAM, vec) if ALL[f][l] is not None]
        if rng.random() < .5:                 # some characteristics already come with Domain
            bases = [Domain] + [ALL[f][l] for f, l in zip(FAM, vec) if ALL[f][l] is not None and l > 0]
    mix = rng.choice([0, 0, 0, 1, 2])
    if mix:
        bases.append([None, MixA, MixB][mix])
    try:
        cls = type(name, tuple(bases), {})
    except TypeError:
        head, tail = bases[0], bases[1:]
        rng.shuffle(tail)
        cls = type(name, (head,) + tuple(tail), {})
    if rng.random() < .3:
        cls = type(name + 'Sub', (cls,), {})
    return cls, vec, mix


def matching(run, rng):
    dcls, dv, dm = build(rng, 'D', 'high')
    dom = dcls()
    sols, want = [], []
    for i in range(rng.randint(1, 6)):
        r, rv, rm = build(rng, 'R', 'low')
        ok = all(a >= b for a, b in zip(dv, rv)) and dm >= rm
        if rng.random() < .5:                 # relax the requirement where needed so that acceptance is common
            keep = [f for f, a, b in zip(FAM, dv, rv) if a >= b]
            bases = [Domain] + [ALL[f][b] for f, b in zip(FAM, rv) if f in keep and ALL[f][b] is not None]
            r, ok, rm = type('R', tuple(bases), {}), True, 0
            rv = tuple(b if f in keep else 0 for f, b in zip(FAM, rv))
        add = rng.choice([None, None, True, False])
        ns = {'T_domain': r}
        seen = []
        if add is not None:
            ns['_check_domain_additional'] = classmethod(lambda cls, d, add=add, seen=seen: (seen.append(d), add)[1])
        S = type(f'S{i}', (rng.choice([Solver, DeterministicPolicySolver]),), ns)
        exp = ok and add is not False
        got = S.check_domain(dom)
        run.check(bool(got) == exp, 'check_domain:' + ('accepts' if not exp else 'rejects'), lambda: f'domain {[(f, ALL[f][l]) for f, l in zip(FAM, dv)]} mix {dm}; requirement {rv} mix {rm}; additional {add}')
        run.hit('accepted' if exp else 'rejected')
        if add is not None and ok:
            run.check(seen == [dom], 'additional-check-called')
        # requirements: exactly the most specific characteristics of the requirement (no implied one)
        req = S.get_domain_requirements()
        tops = {c for f, l in zip(FAM, rv) for c in [ALL[f][l]] if c is not None} | ({[None, MixA, MixB][rm]} if rm else set())
        run.check(set(req) == tops and len(req) == len(set(req)), 'requirements', lambda: (sorted(c.__name__ for c in req), sorted(c.__name__ for c in tops)))
        run.check(not any(a is not b and issubclass(a, b) for a in req for b in req), 'requirements-implied', req)
        sols.append(S)
        if exp:
            want.append(S)
        run.case((dv, dm, rv, rm, add))
    run.hit('match_calls')
    run.check(match_solvers(dom, sols) == want, 'match_solvers')
    it = iter(sols)
    run.check(match_solvers(dom, candidates=it) == want, 'match_solvers:iterable')
    run.check(match_solvers(dom, []) == [], 'match_solvers:empty')


def partial(run, rng):
    """requirements that do not start from Domain: one characteristic alone or a few of them"""
    dcls, dv, dm = build(rng, 'D', rng.choice(['high', 'low']))
    dom = dcls()
    k = rng.choice([1, 1, 1, 2, 3])
    fams = rng.sample(FAM, k)
    req = [(f, rng.choice([l for l, c in enumerate(ALL[f]) if c is not None])) for f in fams]
    classes = [ALL[f][l] for f, l in req]
    if k == 1:
        R = classes[0] if rng.random() < .7 else type('R', (classes[0],), {})
    else:
        R = type('R', tuple(classes), {})
    named = k == 1 and R is not classes[0]        # a named refinement is a characteristic of its own
    S = type('S', (rng.choice([Solver, DeterministicPolicySolver]),), {'T_domain': R})
    want = all(dv[FAM.index(f)] >= l for f, l in req) and not named
    got = bool(S.check_domain(dom))
    run.check(got == want, 'partial:check_domain:' + ('accepts' if not want else 'rejects'), lambda: (req, named, dv))
    got = S.get_domain_requirements()
    run.check(got == [R] if k == 1 else sorted(c.__name__ for c in got) == sorted(c.__name__ for c in classes), 'partial:requirements', lambda: (R, got))
    run.check(match_solvers(dom, [S]) == ([S] if want else []), 'partial:match')
    run.hit('partial_accepted' if want else 'partial_rejected')
    run.case((req, named, dv))


REG = {}


def setup(tier):
    for n in get_registered_solvers():
        REG[n] = load_registered_solver(n)


def registry(run, rng):
    names = get_registered_solvers()
    run.check(len(names) == len(set(names)) > 5, 'registry:solvers', names)
    run.check(load_registered_solver('NotThere') is None and load_registered_domain('NotThere') is None, 'registry:unknown')
    dcls, dv, dm = build(rng, 'D', rng.choice(['high', 'low']))
    dom = dcls()
    run.case((dv, dm))
    got = match_solvers(dom)
    want = [c for c in (REG[n] for n in names) if c is not None and c.check_domain(dom)]
    run.hit('registry_matches')
    run.check(got == want, 'registry:match', (got, want))


GROUPS = [('partial', partial, 1000, 6000), ('matching', matching, 1500, 15000), ('registry', registry, 24, 80)]

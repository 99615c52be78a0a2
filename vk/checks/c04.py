"""C04 distributions and spaces of the core."""
import math
import random

from skdecide import DiscreteDistribution, SingleValueDistribution, ImplicitDistribution, ImplicitSpace, EmptySpace, EnumerableSpace, SamplableSpace, Memory
from skdecide.core import SerializableSpace

RULE = 'random weight vectors (scaled, zero weights, repeated elements, extreme ratios); support monitored on every sample, frequency on 2000-20000 samples; non-trivial = at least two positive weights'
REQUIRED = {'samples': 100000, 'frequency_tests': 200}
ASSUMPTIONS = ['python random is a fair generator']


def bound(n, p, k):
    """Bernstein bound radius: P(|X-np| > r) < 2e-12"""
    L = math.log(2 / 1e-12)
    return L / 3 + math.sqrt(L * L / 9 + 2 * n * p * (1 - p) * L)


def discrete(run, rng):
    k = rng.randint(1, 6)
    scale = rng.choice([1, 1, 0.01, 1000])
    w = [rng.choice([0, 1, 1, 2, 5, 0.1, 0.3333, 1e-3]) * scale for _ in range(k)]
    if not any(w):
        w[rng.randrange(k)] = scale
    dup = rng.random() < .3
    el = [rng.choice(['a', 'b', 'c']) if dup else (i, 'x') for i in range(k)]
    d = DiscreteDistribution(list(zip(el, w)))
    tot = sum(w)
    prob = {}
    for e, p in zip(el, w):
        prob[e] = prob.get(e, 0) + p / tot
    # listing: same elements with the same probabilities (relative to their sum, repeated elements may be merged)
    lst = d.get_values()
    lt = sum(p for _, p in lst)
    got = {}
    for e, p in lst:
        got[e] = got.get(e, 0) + p / lt
    run.check(set(got) == set(prob) and all(abs(got[e] - prob[e]) < 1e-9 for e in prob), 'listing', (lst, prob))
    n = 20000 if run.thorough else 4000
    cnt = {}
    for _ in range(n):
        x = d.sample()
        cnt[x] = cnt.get(x, 0) + 1
    run.hit('samples', n)
    run.check(all(prob.get(x, 0) > 0 for x in cnt), 'support', (cnt, prob))
    for e, p in prob.items():
        run.hit('frequency_tests')
        run.check(abs(cnt.get(e, 0) - n * p) <= bound(n, p, k) + 1, 'frequency', lambda: (e, p, cnt.get(e, 0), n))
    # independence of consecutive draws: pairs
    pairs = {}
    prev = d.sample()
    for _ in range(n):
        x = d.sample()
        pairs[prev, x] = pairs.get((prev, x), 0) + 1
        prev = x
    for (a, b), c in pairs.items():
        p = prob[a] * prob[b]
        run.check(abs(c - n * p) <= 2 * bound(n, p, k) + 2, 'serial-dependence', lambda: (a, b, c, n, p))
    run.case((el, w), sum(1 for x in prob.values() if x > 0) > 1)


def single(run, rng):
    v = rng.choice([None, 0, [1, 2], {'a': 1}, (1,), 'x', Memory([1]), False])
    d = SingleValueDistribution(v)
    run.case(v, True)
    for _ in range(20):
        run.check(d.sample() is v and d.get_value() is v, 'single-sample')
        run.hit('samples')
    run.check(len(d.get_values()) == 1 and d.get_values()[0][0] is v and d.get_values()[0][1] == 1, 'single-listing', d.get_values())
    run.check(isinstance(d, DiscreteDistribution), 'single-is-discrete')
    seq = [rng.randint(0, 9) for _ in range(20)]
    it = iter(seq)
    i = ImplicitDistribution(lambda: next(it))
    run.eq([i.sample() for _ in range(20)], seq, 'implicit-sample')


def spaces(run, rng):
    U = range(-3, 10)
    sel = {x for x in U if rng.random() < .5}
    run.case(sorted(sel))

    class E(EnumerableSpace, SerializableSpace):
        def get_elements(self): return sorted(sel)
    class S(SamplableSpace):
        def __init__(self): self.el = sorted(sel) or [0]
        def sample(self): return rng.choice(self.el)
        def contains(self, x): return x in self.el
    imp, en, em, sa = ImplicitSpace(lambda x: x in sel), E(), EmptySpace(), S()
    for x in U:
        run.check(imp.contains(x) == (x in sel) and (x in imp) == (x in sel), 'implicit-space')
        run.check(en.contains(x) == (x in sel) and (x in en) == (x in sel), 'enumerable-space')
        run.check(not em.contains(x) and x not in em, 'empty-space')
    run.check(list(em.get_elements()) == [], 'empty-elements')
    x = sa.sample()
    run.check(x in sa, 'samplable')
    l = [rng.randint(0, 5) for _ in range(4)]
    run.eq(list(en.from_jsonable(en.to_jsonable(l))), l, 'identity-jsonable')


GROUPS = [('discrete', discrete, 120, 400), ('single', single, 40, 100), ('spaces', spaces, 60, 300)]

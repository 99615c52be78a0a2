"""C34 Learning solvers of the hub (CGP, ARS, MaxEnt IRL): programs mean their graph, actions are legal, and what is learnt is what the algorithm's rule says."""
import math
import os
import random
import re
import shutil
import tempfile

import gym.spaces as gs
import numpy as np

from vk.dostubs import quiet, install

install()
with quiet():
    from skdecide import TransitionValue as Value, EnvironmentOutcome
    from skdecide.domains import RLDomain, Domain
    from skdecide.builders.domain import SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, TransformedObservable, Rewards
    from skdecide.hub.space.gym import GymSpace
    from skdecide.hub.solver.cgp import cgp as W
    from skdecide.hub.solver.cgp import CGP as CGPSolver
    from skdecide.hub.solver.cgp.pycgp.cgp import CGP
    from skdecide.hub.solver.cgp.pycgp.cgpes import CGPES, Evaluator
    from skdecide.hub.solver.cgp.pycgp import cgpfunctions as F
    from skdecide.hub.solver.ars.ars import AugmentedRandomSearch, Normalizer
    from skdecide.hub.solver.maxent_irl import MaxentIRL

RULE = 'random program graphs, libraries and input histories, evolution runs on recorded fitness, random box, discrete and tuple spaces, small recorded environments; non-trivial = a program with a function node read by an output, an evolution that improves, an environment with at least 2 observations'
REQUIRED = {'steps': 4000, 'deep': 300, 'mutants': 1500, 'reach': 15, 'saved': 100, 'drawn': 60, 'written': 60, 'functions': 3000, 'norms': 3000, 'denorms': 3000, 'es:improved': 60, 'es:evaluations': 1500, 'es:parallel': 5,
            'cgp:steps': 1500, 'cgp:actions': 300, 'ars:epochs': 100, 'ars:steps': 3000, 'irl:updates': 3000, 'irl:edge': 100, 'irl:gradient': 1}
ASSUMPTIONS = ['a step of a program is synchronous: a node reads what its arguments held before the step (inputs: what they hold now), starting from zero', 'spaces are bounded, or unbounded on both sides (then read as [-1, 1])', 'arguments of a node lie in earlier columns or among the inputs']

# what each function of the default library means
MEAN = {'sum': (F.f_sum, 2, lambda a: (a[0] + a[1]) / 2), 'aminus': (F.f_aminus, 2, lambda a: abs(a[0] - a[1]) / 2), 'mult': (F.f_mult, 2, lambda a: a[0] * a[1]), 'exp': (F.f_exp, 1, lambda a: math.expm1(a[0]) / (math.e - 1)),
        'abs': (F.f_abs, 1, lambda a: abs(a[0])), 'sqrt': (F.f_sqrt, 1, lambda a: math.sqrt(abs(a[0]))), 'sqrtxy': (F.f_sqrtxy, 2, lambda a: math.sqrt((a[0] ** 2 + a[1] ** 2) / 2)), 'squared': (F.f_squared, 1, lambda a: a[0] ** 2),
        'pow': (F.f_pow, 2, lambda a: abs(a[0]) ** abs(a[1])), 'one': (F.f_one, 0, lambda a: 1), 'zero': (F.f_zero, 0, lambda a: 0), 'inv': (F.f_inv, 1, lambda a: (a[0] > 0) - (a[0] < 0)), 'gt': (F.f_gt, 2, lambda a: int(a[0] > a[1])),
        'acos': (F.f_acos, 1, lambda a: math.acos(a[0]) / math.pi), 'asin': (F.f_asin, 1, lambda a: math.asin(a[0]) / (math.pi / 2)), 'atan': (F.f_atan, 1, lambda a: math.atan(a[0]) / (math.pi / 4)),
        'min': (F.f_min, 2, lambda a: min(a[:2])), 'max': (F.f_max, 2, lambda a: max(a[:2])), 'round': (F.f_round, 1, lambda a: float(round(a[0]))), 'floor': (F.f_floor, 1, lambda a: math.floor(a[0])), 'ceil': (F.f_ceil, 1, lambda a: math.ceil(a[0]))}


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def library(rng, smooth=False):
    names = [n for n in MEAN if not smooth or n not in ('inv', 'gt', 'round', 'floor', 'ceil', 'sqrt', 'sqrtxy', 'pow', 'acos', 'asin')]
    names = rng.sample(names, rng.randint(2, min(8, len(names))))
    if not any(MEAN[n][1] == 2 for n in names):
        names.append('sum')
    return names, [CGP.CGPFunc(MEAN[n][0], n, MEAN[n][1]) for n in names]


class Spec:
    """A program: nodes[c * rows + r] = (function name, arguments), outputs."""

    def __init__(self, names, ni, no, cols, rows, genome, arity):
        self.ni, self.no, self.cols, self.rows = ni, no, cols, rows
        self.nodes, k = [], 0
        for _ in range(cols * rows):
            self.nodes.append((names[genome[k]], [int(x) for x in genome[k + 1:k + 1 + arity]]))
            k += arity + 1
        self.outs = [int(x) for x in genome[k:]]
        self.val = [0.0] * (ni + cols * rows)

    def step(self, x):
        old = list(self.val)
        old[:self.ni] = [float(v) for v in x]
        new = list(old)
        for i, (f, a) in enumerate(self.nodes):
            new[self.ni + i] = float(MEAN[f][0](np.array([old[j] for j in a])))     # (the functions themselves are judged by g_functions)
        self.val = new
        return [new[o] for o in self.outs]

    def active(self):
        seen, todo = set(), [o for o in self.outs]
        while todo:
            p = todo.pop()
            if p not in seen:
                seen.add(p)
                if p >= self.ni:
                    f, a = self.nodes[p - self.ni]
                    todo += a[:MEAN[f][1]]
        return seen

    def depth(self, p):
        if p < self.ni:
            return 0
        f, a = self.nodes[p - self.ni]
        return 1 + max([self.depth(x) for x in a[:MEAN[f][1]]], default=0)

    def now(self, x):
        """values of the graph read as one expression"""
        v = list(map(float, x))
        for f, a in self.nodes:
            v.append(float(MEAN[f][0](np.array([v[j] for j in a]))))
        return [v[o] for o in self.outs]


def legal(g, nl, ni, no, cols, rows, arity):
    k = 0
    if len(g) != cols * rows * (arity + 1) + no:
        return False
    for c in range(cols):
        for r in range(rows):
            if not 0 <= g[k] < nl or any(not 0 <= x < ni + c * rows for x in g[k + 1:k + 1 + arity]):
                return False
            k += arity + 1
    return all(0 <= x < ni + cols * rows for x in g[k:])


def program(rng, smooth=False, big=True):
    names, lib = library(rng, smooth)
    ar = max(f.arity for f in lib)
    ni, no, cols, rows = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 8 if big else 3), rng.choice([1, 1, 2, 3])
    if rng.random() < 0.5:
        g = []
        for c in range(cols):
            for r in range(rows):
                g += [rng.randrange(len(lib))] + [rng.randrange(ni + c * rows) for _ in range(ar)]
        g += [rng.randrange(ni + cols * rows) for _ in range(no)]
        if rng.random() < 0.6:
            g[-1] = ni + cols * rows - 1 - rng.randrange(rows)
        p = CGP(np.array(g, dtype=int), ni, no, cols, rows, lib, 1.0)
    else:
        p = CGP.random(ni, no, cols, rows, lib, 1.0)
    return p, names, lib, ar, (ni, no, cols, rows)


def spec(p, names, ar, dim):
    return Spec(names, *dim, [int(x) for x in p.genome], ar)


def inputs(rng, ni):
    return [rng.choice([-1, 0, 1, rng.uniform(-1, 1), rng.uniform(-1, 1)]) for _ in range(ni)]


def play(run, rng, p, s, n, what):
    for _ in range(n):
        x = inputs(rng, s.ni)
        with quiet():
            got = list(p.run(x))
        want = s.step(x)
        run.hit('steps')
        run.check(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)), what, lambda: f'{got} want {want} on {x}: {s.nodes} {s.outs}', abort=True)
        run.check(all(-1 - 1e-9 <= v <= 1 + 1e-9 for v in got), 'program:out-of-range', lambda: f'{got}')


def g_program(run, rng):
    p, names, lib, ar, dim = program(rng)
    random.seed(rng.randrange(1 << 30))
    run.check(legal(p.genome, len(lib), *dim, ar), 'random:illegal', lambda: f'{list(p.genome)} {dim}', abort=True)
    s = spec(p, names, ar, dim)
    s0 = [int(x) for x in p.genome]
    d = max(s.depth(o) for o in s.outs)
    run.hit('deep', 1 if d >= 2 else 0)
    play(run, rng, p, s, 4, 'program:run')
    # the same input long enough: the graph's value as one expression
    x = inputs(rng, dim[0])
    with quiet():
        for _ in range(dim[2] + 1):
            got = list(p.run(x))
            s.step(x)
    run.check(all(close(a, b) for a, b in zip(got, s.now(x))), 'program:settled', lambda: f'{got} {s.now(x)} {s.nodes} {s.outs}')
    # clones start afresh and are independent
    q = p.clone()
    run.check([int(v) for v in q.genome] == s0, 'clone:genome', lambda: f'{q.genome} {s0}')
    sq = spec(q, names, ar, dim)
    play(run, rng, q, sq, 2, 'clone:run')
    for _ in range(3):
        rn, ro = rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (0.3, 0.3)])
        before = [int(v) for v in q.genome]
        if rng.random() < 0.6:
            q.mutate_per_gene(rn, ro)
        else:
            rn = rng.choice([0, 1, 3])
            ro = None
            q.mutate(rn)
        after = [int(v) for v in q.genome]
        run.hit('mutants')
        nodes = dim[2] * dim[3] * (ar + 1)
        run.check(legal(after, len(lib), *dim, ar), 'mutate:illegal', lambda: f'{before} -> {after} {dim} {len(lib)}', abort=True)
        if ro is None:
            run.check(sum(a != b for a, b in zip(before, after)) <= rn, 'mutate:too-much', lambda: f'{rn}: {before} -> {after}')
        else:
            run.check((rn or after[:nodes] == before[:nodes]) and (ro or after[nodes:] == before[nodes:]), 'mutate:rate-of-the-other-genes', lambda: f'{rn} {ro}: {before} -> {after}')
        run.check([int(v) for v in p.genome] == s0, 'mutate:father-changed', lambda: f'{p.genome} {s0}', abort=True)
        if after != before:
            play(run, rng, q, spec(q, names, ar, dim), 2, 'mutate:run')
    play(run, rng, p, s, 2, 'program:run-after-clones')
    # files
    d0 = tempfile.mkdtemp(prefix='c34_')
    try:
        f = os.path.join(d0, 'g.txt')
        p.save(f)
        q = CGP.load_from_file(f, lib)
        run.hit('saved')
        run.check([int(v) for v in q.genome] == s0 and (int(q.num_inputs), int(q.num_outputs), int(q.num_cols), int(q.num_rows)) == dim, 'save:differs', lambda: f'{q.genome} {s0} {dim}')
        play(run, rng, q, spec(q, names, ar, dim), 3, 'save:run')
    finally:
        shutil.rmtree(d0)
    run.case((s.nodes, s.outs), d >= 1)


def size(s, p):
    if p < s.ni:
        return 1
    f, a = s.nodes[p - s.ni]
    return 1 + sum(size(s, x) for x in a[:MEAN[f][1]])


def g_text(run, rng):
    """The drawing shows the nodes and links that the outputs read; the formula has the value of the program."""
    p, names, lib, ar, dim = program(rng, big=False)
    s = spec(p, names, ar, dim)
    run.require(sum(size(s, o) for o in s.outs) < 3000)
    ins, outs = [f'x{i}' for i in range(dim[0])], [f'y{i}' for i in range(dim[1])]
    d0 = tempfile.mkdtemp(prefix='c34_')
    try:
        f = os.path.join(d0, 'g.dot')
        p.to_dot(f, ins, outs)
        txt = open(f).read()
    finally:
        shutil.rmtree(d0)
    name = lambda q: ins[q] if q < s.ni else f'{s.nodes[q - s.ni][0]}_{q - s.ni}'
    want = {(name(o), y) for o, y in zip(s.outs, outs)}
    for q in s.active():
        if q >= s.ni:
            fn, a = s.nodes[q - s.ni]
            want |= {(name(x), name(q)) for x in a[:MEAN[fn][1]]}
    got = set(re.findall(r'(\w+) -> (\w+)', txt))
    run.hit('drawn')
    run.check(got == want, 'dot:links', lambda: f'{got ^ want}\n{txt}')
    from contextlib import redirect_stdout
    import io
    b = io.StringIO()
    with redirect_stdout(b):
        p.to_function_string(ins, outs)
    lines = [ln for ln in b.getvalue().replace('\n', '').split(';') if ln.strip()]
    run.check([ln.split(' = ')[0].strip() for ln in lines] == outs, 'formula:outputs', lambda: b.getvalue(), abort=True)
    x = inputs(rng, dim[0])
    env = {n: (lambda k: (lambda *a: float(MEAN[k][0](np.array(a)))))(n) for n in names}
    env.update(dict(zip(ins, map(float, x))))
    try:
        vals = [eval(ln.split(' = ')[1], {'__builtins__': {}}, env) for ln in lines]
    except RecursionError:
        vals = s.now(x)
    run.hit('written')
    run.check(all(close(a, b) for a, b in zip(vals, s.now(x))), 'formula:value', lambda: f'{vals} {s.now(x)} {lines}')
    run.case((s.nodes, s.outs), any(o >= s.ni for o in s.outs))


def g_functions(run, rng):
    with quiet():
        lib = {f.name: f for f in CGPSolver('unused')._get_default_function_lib()}
    run.check(set(lib) == set(MEAN), 'library:names', lambda: f'{set(lib) ^ set(MEAN)}')
    for n, f in lib.items():
        for _ in range(4):
            a = inputs(rng, 2)
            got = float(f.function(np.array(a)))
            run.hit('functions')
            run.check(close(got, float(MEAN[n][2](a))), 'library:' + n, lambda: f'{a}: {got}')
            run.check(-1 <= got <= 1, 'library:out-of-range:' + n, lambda: f'{a}: {got}')
        run.check(f.arity >= MEAN[n][1], 'library:arity:' + n, lambda: f'{f.arity}')
    run.case(rng.random())


def g_reach(run, rng):
    """Every legal value of every gene can be reached."""
    names, lib = library(rng)
    names, lib = names[:3], lib[:3]
    if not any(f.arity == 2 for f in lib):
        names[-1], lib[-1] = 'sum', CGP.CGPFunc(F.f_sum, 'sum', 2)
    ar = max(f.arity for f in lib)
    dim = (rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 2))
    ni, no, cols, rows = dim
    random.seed(rng.randrange(1 << 30))
    how = rng.choice(['random', 'mutate', 'per-gene'])
    base = CGP.random(*dim, lib, 1.0)
    n = len(base.genome)
    seen = [set() for _ in range(n)]
    p = base.clone()
    for _ in range(900 if how != 'mutate' else 500 * n):
        if how == 'random':
            p = CGP.random(*dim, lib, 1.0)
        elif how == 'mutate':
            p.mutate(1)
        else:
            p.mutate_per_gene(0.6, 0.6)
        for i, v in enumerate(p.genome):
            seen[i].add(int(v))
    k = 0
    for c in range(cols):
        for r in range(rows):
            run.check(seen[k] == set(range(len(lib))), f'reach:{how}:function', lambda: f'{k} {seen[k]} {dim}')
            for j in range(k + 1, k + 1 + ar):
                run.check(seen[j] == set(range(ni + c * rows)), f'reach:{how}:argument', lambda: f'column {c}: {seen[j]} {dim}')
            k += ar + 1
    for j in range(k, n):
        run.check(seen[j] == set(range(ni + cols * rows)), f'reach:{how}:output', lambda: f'{seen[j]} {dim}')
    run.hit('reach')
    run.case((how, dim), True)


# ---------------------------------------------------------------- evolution
class Fit(Evaluator):
    def __init__(self, log, names, ar, dim, probes, target):
        self.a = (log, names, ar, dim, probes, target)

    def value(self, genome):
        log, names, ar, dim, probes, target = self.a
        s = Spec(names, *dim, genome, ar)
        return -round(sum(abs(s.now(x)[0] - t) for x, t in zip(probes, target)), 1)

    def evaluate(self, cgp, it):
        g = [int(v) for v in cgp.genome]
        f = self.value(g)
        self.a[0].append((it, g, f, id(cgp)))
        return f

    def clone(self):
        return Fit(*self.a)


def g_es(run, rng):
    p, names, lib, ar, dim = program(rng)
    random.seed(rng.randrange(1 << 30))
    probes = [inputs(rng, dim[0]) for _ in range(3)]
    log = []
    ev = Fit(log, names, ar, dim, probes, [rng.uniform(-1, 1) for _ in probes])
    n, its = rng.choice([1, 2, 4]), rng.choice([0, 1, 5, 15])
    first = [int(v) for v in p.genome]
    d0 = tempfile.mkdtemp(prefix='c34_')
    par = rng.random() < 0.25
    rates = rng.choice([(0.1, 0.3), (0.5, 0.3), (0, 0.6), (0.6, 0)])
    try:
        with quiet():
            if par:
                import joblib
                run.hit('es:parallel')
                with joblib.parallel_backend('threading', n_jobs=2):
                    es = CGPES(n, *rates, p, ev, d0 + '/f', 2)
                    es.run(its)
            else:
                es = CGPES(n, *rates, p, ev, d0 + '/f', 1)
                es.run(its)
        es.logfile.close()
        run.hit('es:evaluations', len(log))
        run.check(len(log) == 1 + n * its, 'evolution:number-of-evaluations', lambda: f'{len(log)} {n} {its}', abort=True)
        run.check(log[0][:2] == (0, first), 'evolution:first', lambda: f'{log[0]} {first}')
        nodes = dim[2] * dim[3] * (ar + 1)
        for e in log:
            run.check((rates[0] or e[1][:nodes] == first[:nodes]) and (rates[1] or e[1][nodes:] == first[nodes:]), 'evolution:rate-of-the-other-genes', lambda: f'{rates} {first} {e[1]}')
        cur, fit, files = first, log[0][2], {}
        files[0] = (first, fit)
        for it in range(1, its + 1):
            gen = [e for e in log if e[0] == it]
            run.check(len(gen) == n, 'evolution:offspring', lambda: f'{it} {len(gen)}', abort=True)
            best = max(e[2] for e in gen)
            top = [e[1] for e in gen if e[2] == best]
            for e in gen:
                run.check(legal(e[1], len(lib), *dim, ar), 'evolution:illegal', lambda: f'{e}')
            if best >= fit:
                fit = best
                files[it] = (top, fit)
                run.hit('es:improved', 1)
                cur = top
            last = cur
        g = [int(v) for v in es.father.genome]
        run.check(g in cur if isinstance(cur[0], list) else g == cur, 'evolution:kept', lambda: f'{g} want {cur}')
        run.check(close(es.current_fitness, fit) and close(ev.value(g), fit), 'evolution:fitness', lambda: f'{es.current_fitness} {ev.value(g)} want {fit}')
        run.check(fit == max(e[2] for e in log), 'evolution:best-lost', lambda: f'{fit} {max(e[2] for e in log)}')
        run.check([int(v) for v in p.genome] == first, 'evolution:first-changed', lambda: '')
        got = {}
        for f in os.listdir(d0 + '/f'):
            m = re.match(r'cgp_genome_(\d+)_(.*)\.txt$', f)
            if m:
                q = CGP.load_from_file(d0 + '/f/' + f, lib)
                got[int(m.group(1))] = ([int(v) for v in q.genome], float(m.group(2)))
        run.check(set(got) == set(files), 'evolution:files', lambda: f'{sorted(got)} {sorted(files)}')
        for it, (g, f) in got.items():
            if it in files:
                w, v = files[it]
                run.check(close(f, v) and (g in w if isinstance(w[0], list) else g == w), 'evolution:file-content', lambda: f'{it} {g} {f} want {w} {v}')
        lines = [ln.split('\t') for ln in open(d0 + '/f/out.txt').read().split('\n') if re.match(r'\d+\t', ln)]
        run.check([int(x[0]) for x in lines] == list(range(1, its + 1)) and all((x[2] == 'True') == (int(x[0]) in files) for x in lines), 'evolution:log', lambda: f'{lines} {sorted(files)}')
    finally:
        shutil.rmtree(d0)
    run.case((dim, first, n, its, len(files)), len(files) > 1)


# ---------------------------------------------------------------- spaces
def one_space(rng, action=False, tuple_part=False):
    k = rng.choice(['box', 'disc'])
    if k == 'disc':
        return gs.Discrete(rng.choice([1, 2, 3, 5, 10]))
    n = 1 if action and tuple_part else rng.randint(1, 3)
    if not action and rng.random() < 0.2:
        return gs.Box(-np.inf, np.inf, (n,), np.float64)
    lo = np.array([rng.choice([-1, 0, -5.5, 2, 100]) for _ in range(n)], np.float64)
    w = np.array([rng.choice([1, 0.5, 10, 3, 0] if not action else [1, 0.5, 10, 3]) for _ in range(n)])
    if not action and rng.random() < 0.2:
        return gs.Box(np.array([lo, lo - 1]), np.array([lo + w, lo + w]), (2, n), np.float64)
    return gs.Box(lo, lo + w, (n,), np.float64)


def space(rng, action=False):
    if rng.random() < 0.35:
        return gs.Tuple([one_space(rng, action, True) for _ in range(rng.randint(1, 3))])
    return one_space(rng, action)


def parts(sp):
    return list(sp.spaces) if isinstance(sp, gs.Tuple) else [sp]


def bounds(sp):
    out = []
    for t in parts(sp):
        if isinstance(t, gs.Discrete):
            out.append((0, int(t.n) - 1, True))
        else:
            out += [(float(a), float(b), False) for a, b in zip(np.ravel(t.low), np.ravel(t.high))]
    return out


def unit(x, lo, hi):
    """where x lies in [lo, hi], on [-1, 1]"""
    if lo == -math.inf:
        lo, hi = -1, 1
    if lo == hi:
        return -1
    return (min(hi, max(lo, x)) - lo) / (hi - lo) * 2 - 1


def flat(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [y for x in v for y in flat(x)]
    return [float(v)]


def member(rng, sp, wild=0):
    def part(t):
        if isinstance(t, gs.Discrete):
            return rng.randrange(int(t.n))
        lo, hi = np.where(np.isinf(t.low), -1.2, t.low), np.where(np.isinf(t.high), 1.2, t.high)
        u = np.array([rng.choice([0, 1, 0.5, rng.random()] + [-0.3, 1.4] * wild) for _ in range(t.low.size)]).reshape(t.shape)
        return lo + u * (hi - lo)
    return tuple(part(t) for t in parts(sp)) if isinstance(sp, gs.Tuple) else part(sp)


def normed(obs, sp):
    return [unit(x, lo, hi) for x, (lo, hi, d) in zip(flat(obs), bounds(sp))]


def same_actions(got, want, lims):
    """components, one choice apart when the value lies on the border of two choices"""
    got = flat(got)
    return len(got) == len(want) and all((abs(g - w) <= 1e-6 * max(1, abs(w))) if not d else (g == int(g) and lo <= g <= hi and abs(g - w) <= 1) for g, w, (lo, hi, d) in zip(got, want, lims))


def denormed(v, sp):
    out = []
    for x, (lo, hi, d) in zip(v, bounds(sp)):
        u = (min(1, max(-1, x)) + 1) / 2
        out.append(lo + u * (hi - lo) if not d else min(hi, int(u * (hi + 1))))
    return out


def g_spaces(run, rng):
    sp = space(rng)
    for _ in range(10):
        x = member(rng, sp, wild=rng.choice([0, 1]))
        got = W.norm_and_flatten(x, sp)
        want = normed(x, sp)
        run.hit('norms')
        run.check(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)), 'norm', lambda: f'{sp} {x}: {got} want {want}')
        run.check(all(-1 <= a <= 1 for a in got), 'norm:out-of-range', lambda: f'{got}')
        if not isinstance(sp, gs.Discrete) and not any(len(t.shape or ()) > 1 for t in parts(sp)):
            y = [np.array(v) if isinstance(v, np.ndarray) else v for v in x] if isinstance(sp, gs.Tuple) else np.array(x)
            run.check(all(close(a, b) for a, b in zip(flat(W.norm(y, sp)), want)), 'norm:structured', lambda: f'{sp} {x}: {W.norm(y, sp)} want {want}')
    sp = space(rng, action=True)
    lims = bounds(sp)
    for _ in range(10):
        v = [rng.choice([-1, 1, 0, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-3, 3)]) for _ in lims]
        got = W.denorm(np.array(v), sp)
        run.hit('denorms')
        run.check(same_actions(got, denormed(v, sp), lims) and all(lo - 1e-9 <= g <= hi + 1e-9 for g, (lo, hi, d) in zip(flat(got), lims)), 'denorm', lambda: f'{sp} {v}: {got} want {denormed(v, sp)}')
        for g, x, (lo, hi, d) in zip(flat(got), v, lims):
            if d and abs((min(1, max(-1, x)) + 1) / 2 * (hi + 1) % 1 - 0.5) < 0.49:
                run.check(g == denormed([x], gs.Discrete(hi + 1))[0], 'denorm:choice', lambda: f'{x} {hi + 1}: {g}')
        if len(lims) == 1 and isinstance(sp, gs.Discrete):
            run.check(not isinstance(got, (list, np.ndarray)) and sp.contains(got), 'denorm:not-a-choice', lambda: f'{got!r}')
        # there and back
        x = member(rng, sp)
        back = flat(W.denorm(W.norm_and_flatten(x, sp), sp))
        run.check(all(close(a, b) if not d else True for a, b, (lo, hi, d) in zip(back, flat(x), lims)), 'denorm:there-and-back', lambda: f'{sp} {x}: {back}')
        for a, b, (lo, hi, d) in zip(back, flat(x), lims):
            if d and hi > 0:        # the borders lie at multiples of 2/n: i -> -1 + 2i/(n-1) falls in the i-th of n slices, up to the exact border
                u = b / hi * (hi + 1)
                if abs(u - round(u)) > 1e-6 or b in (0, hi):
                    run.check(a == b, 'denorm:choice-there-and-back', lambda: f'{b} -> {a} of {hi + 1}')
    run.case((str(sp),), True)


# ---------------------------------------------------------------- environments
class EnvDomain(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, TransformedObservable, Rewards):
    """A recorded environment; the next observation and the reward are functions of the observation and the action."""

    def __init__(self, rng, ospace, aspace, length, log):
        self.o, self.a, self.length, self.log = ospace, aspace, length, log
        self.k = [rng.uniform(-1, 1) for _ in range(8)]
        self.start = member(rng, ospace)
        self.scale = rng.choice([0.3, 1, 3])

    def _get_action_space_(self):
        return GymSpace(self.a)

    def _get_observation_space_(self):
        return GymSpace(self.o)

    def _state_reset(self):
        self.t = 0
        self.u = [0.1 * i for i in range(len(bounds(self.o)))]
        self.log.append([self.obs()])
        return self.obs()

    def _reset(self):
        return self._state_reset()

    def obs(self):
        out, k = [], 0
        for t in parts(self.o):
            m = 1 if isinstance(t, gs.Discrete) else t.low.size
            us = self.u[k:k + m]
            k += m
            if isinstance(t, gs.Discrete):
                out.append(min(int(t.n) - 1, int((math.sin(us[0]) + 1) / 2 * int(t.n))))
            else:
                lo, hi = np.where(np.isinf(t.low), -1.2, t.low), np.where(np.isinf(t.high), 1.2, t.high)
                out.append(lo + (hi - lo) * ((np.sin(np.array(us)) + 1) / 2).reshape(t.shape))
        return tuple(out) if isinstance(self.o, gs.Tuple) else out[0]

    def reward(self, a):
        return self.scale * (math.cos(sum(k * u for k, u in zip(self.k, self.u))) * sum(k * x for k, x in zip(self.k, a)) + self.k[0])

    def _step(self, action):
        a = normed(action, self.a)
        r = self.reward(a)
        self.u = [u + 0.5 * self.k[i % 8] + 0.3 * sum(a) for i, u in enumerate(self.u)]
        self.t += 1
        done = self.t >= self.length
        self.log[-1].append((action, r, self.obs()))
        return EnvironmentOutcome(self.obs(), Value(reward=r), done)


def g_cgp(run, rng):
    osp, asp = space(rng), space(rng, action=True)
    log = []
    env_seed = rng.randrange(1 << 30)
    length = rng.randint(1, 6)
    mk = lambda: EnvDomain(random.Random(env_seed), osp, asp, length, log)
    d0 = tempfile.mkdtemp(prefix='c34_')
    random.seed(rng.randrange(1 << 30))
    n, its, cols, rows = rng.choice([1, 3]), rng.randint(0, 5), rng.randint(1, 10), rng.choice([1, 2])
    try:
        with quiet():
            run.check(CGPSolver.check_domain(mk()), 'cgp:refused', lambda: f'{osp} {asp}')
            s = CGPSolver(d0 + '/f', col=cols, row=rows, nb_ind=n, n_it=its, verbose=rng.random() < 0.5)
            del log[:]
            s.solve(mk)
            s._es.logfile.close()
        eps = [e for e in log]
        run.check(len(eps) == 1 + n * its, 'cgp:episodes', lambda: f'{len(eps)} {n} {its}')
        run.check(all(len(e) == length + 1 for e in eps), 'cgp:episode-length', lambda: f'{[len(e) for e in eps]} {length}')
        lims = bounds(asp)
        for e in eps:
            for a, r, o in e[1:]:
                run.hit('cgp:steps')
                run.check(len(flat(a)) == len(lims) and all(lo - 1e-9 <= g <= hi + 1e-9 and (not dd or g == int(g)) for g, (lo, hi, dd) in zip(flat(a), lims)), 'cgp:illegal-action', lambda: f'{a} {asp}')
        total = [sum(x[1] for x in e[1:]) for e in eps]
        # the kept fitness is the best episode's, ties to the last ones
        run.check(close(s._es.current_fitness, max(total)), 'cgp:fitness', lambda: f'{s._es.current_fitness} {total}')
        # the policy runs the kept program on the normalised observation
        fa = s._es.father
        lib = s._get_default_function_lib()
        ar = max(f.arity for f in lib)
        dim = (len(bounds(osp)), len(lims), cols, rows)
        run.check((fa.num_inputs, fa.num_outputs, fa.num_cols, fa.num_rows) == dim, 'cgp:shape-of-programs', lambda: f'{dim} {fa.num_inputs} {fa.num_outputs}', abort=True)
        run.check(legal(fa.genome, len(lib), *dim, ar), 'cgp:illegal-program', lambda: f'{dim}', abort=True)
        fresh = fa.clone()
        s._es.father = fresh
        sp = Spec([f.name for f in lib], *dim, [int(v) for v in fresh.genome], ar)
        for _ in range(5):
            o = member(rng, osp)
            with quiet():
                a = s.get_next_action(o) if rng.random() < 0.5 else s.sample_action(o)
                run.check(s.is_policy_defined_for(o) is True, 'cgp:policy-undefined', '')
            want = denormed(sp.step(normed(o, osp)), asp)
            run.hit('cgp:actions')
            run.check(same_actions(a, want, lims), 'cgp:policy', lambda: f'{o} -> {a} want {want}: {sp.nodes} {sp.outs}')
        # fitness over several episodes: a mean by rank, the best episode weighing most
        if its:
            ends = []

            class Vary(EnvDomain):
                def reward(self, a):
                    return 3.0 * (len(self.log) % 3) - len(self.log) % 2
            del log[:]
            ev = W.SkDecideEvaluator(Vary(random.Random(env_seed), osp, asp, length, log), it_max=rng.choice([1, 3, 100]), ep_max=rng.randint(1, 5))
            with quiet():
                ev2 = ev.clone()
                got = ev2.evaluate(fa.clone(), 0)
            sums = sorted(sum(x[1] for x in e[1:]) for e in log)
            run.check(len(log) == ev.ep_max and all(len(e) - 1 == min(length, ev.it_max) for e in log), 'cgp:evaluator-episodes', lambda: f'{[len(e) - 1 for e in log]} {ev.ep_max} {ev.it_max} {length}')
            run.check(close(got, sum(x * (i + 1) for i, x in enumerate(sums)) / sum(range(1, len(sums) + 1))), 'cgp:evaluator-mean', lambda: f'{got} {sums}')
        # a saved program is where the evolution starts
        f = d0 + '/g.txt'
        fa.save(f)
        del log[:]
        with quiet():
            s2 = CGPSolver(d0 + '/f2', genome=f, n_it=0, verbose=False)
            s2.solve(mk)
            s2._es.logfile.close()
        run.check([int(v) for v in s2._es.father.genome] == [int(v) for v in fa.genome], 'cgp:given-genome', lambda: '')
    finally:
        shutil.rmtree(d0)
    run.case((str(osp), str(asp), length, its, total), length > 1)


def g_refuse(run, rng):
    """Spaces that CGP cannot read are refused wherever they lie in a tuple."""
    bad = gs.MultiBinary(2)
    good = [one_space(rng, True, True) for _ in range(rng.randint(1, 2))]
    k = rng.randrange(len(good) + 1)
    mixed = gs.Tuple(good[:k] + [bad] + good[k:])
    clean = gs.Tuple(good)
    for o, a, want in ((mixed, clean, False), (clean, mixed, False), (clean, clean, True), (bad, clean, False), (clean, bad, False)):
        d = EnvDomain(rng, clean, clean, 3, [])
        d.o, d.a = o, a
        with quiet():
            got = CGPSolver.check_domain(d)
        run.check(bool(got) == want, 'cgp:accepts-unreadable-spaces' if got else 'cgp:refuses-readable-spaces', lambda: f'{o} {a}')
    run.hit('refused')
    run.case((str(mixed), k), True)


# ---------------------------------------------------------------- augmented random search
def ars_by_hand(env, osp, asp, n_epochs, size, K, top, lr, noise):
    """The same search, on another copy of the environment."""
    nin, nout = len(bounds(osp)), len(bounds(asp))
    np.random.seed(0)
    pol = np.zeros((nout, nin))

    def episode(M):
        o, tot, n, done = env.reset(), 0, 0, False
        while not done and n < size:
            a = denormed(list(M @ np.array(normed(o, osp))), asp)
            out = env.step(a if not isinstance(asp, gs.Discrete) else a[0])
            o, done = out.observation, out.termination
            tot += max(-1, min(1, out.value.reward))
            n += 1
        return tot
    for _ in range(n_epochs):
        D = [2 * np.random.random_sample(pol.shape) - 1 for _ in range(K)]
        plus = [episode(pol + noise * d) for d in D]
        minus = [episode(pol - noise * d) for d in D]
        sd = np.std(plus + minus)
        order = sorted(range(K), key=lambda k: -max(plus[k], minus[k]))
        if top and sd:
            pol = pol + lr / (top * sd) * sum((plus[k] - minus[k]) * D[k] for k in order[:top])
        episode(pol)
    return pol


def g_ars(run, rng):
    osp, asp = one_space(rng), one_space(rng, action=True)
    if rng.random() < 0.3:
        osp = gs.Tuple([one_space(rng) for _ in range(2)])
    if any(len(getattr(t, 'shape', ()) or ()) > 1 for t in parts(osp)):
        raise_discard(run)
    log, log2 = [], []
    seed = rng.randrange(1 << 30)
    length = rng.randint(1, 6)
    K = rng.randint(1, 4)
    top = rng.randint(0, K)
    n_epochs, size, lr, noise = rng.randint(1, 4), rng.choice([2, 5, 100]), rng.choice([0.02, 0.5]), rng.choice([0.03, 0.4])
    exact = not isinstance(asp, gs.Discrete)
    with quiet():
        s = AugmentedRandomSearch(n_epochs=n_epochs, epoch_size=size, directions=K, top_directions=top, learning_rate=lr, policy_noise=noise)
        s.solve(lambda: EnvDomain(random.Random(seed), osp, asp, length, log))
        want = ars_by_hand(EnvDomain(random.Random(seed), osp, asp, length, log2), osp, asp, n_epochs, size, K, top, lr, noise)
    run.hit('ars:epochs', n_epochs)
    lims = bounds(asp)
    run.check(len(log) == n_epochs * (2 * K + 1), 'ars:episodes', lambda: f'{len(log)} {n_epochs} {K}', abort=True)
    for e in log:
        run.check(len(e) - 1 == min(length, size), 'ars:episode-length', lambda: f'{len(e)} {length} {size}', abort=True)
        for a, r, o in e[1:]:
            run.hit('ars:steps')
            run.check(len(flat(a)) == len(lims) and all(lo - 1e-9 <= g <= hi + 1e-9 and (not d or g == int(g)) for g, (lo, hi, d) in zip(flat(a), lims)), 'ars:illegal-action', lambda: f'{a} {asp}')
    pol = np.array(s.policy)
    run.check(pol.shape == want.shape and np.isfinite(pol).all(), 'ars:policy-shape', lambda: f'{pol.shape} {want.shape}', abort=True)
    if exact:
        run.check(np.abs(pol - want).max() < 1e-6 * max(1, np.abs(want).max()), 'ars:policy', lambda: f'{pol} want {want} ({n_epochs} epochs, {top} of {K})')
        run.check(all(all(abs(x - y) < 1e-5 * max(1, abs(y)) for x, y in zip(flat(a[0]), flat(b[0]))) for e, f in zip(log, log2) for a, b in zip(e[1:], f[1:])), 'ars:actions-tried', lambda: '')
        run.hit('ars:moved', 1 if np.abs(want).max() > 0 else 0)
    for _ in range(4):
        o = member(rng, osp)
        a = s.sample_action(o)
        w = denormed(list(pol @ np.array(normed(o, osp))), asp)
        run.check(same_actions(a, w, lims), 'ars:policy-action', lambda: f'{o} -> {a} want {w}')
    # running statistics
    n, m = rng.randint(1, 12), rng.randint(1, 3)
    N = Normalizer(m)
    X = np.array([[rng.uniform(-2, 2) for _ in range(m)] for _ in range(n)])
    for x in X:
        N.observe(x)
    run.check(np.allclose(N.mean, X.mean(0)) and np.allclose(N.var, X.var(0).clip(min=0.01)), 'ars:statistics', lambda: f'{N.mean} {N.var} {X}')
    y = N.normalize(X[0])
    run.check(np.allclose(y, X[0] if n <= 1 else (X[0] - X.mean(0)) / np.sqrt(X.var(0).clip(min=0.01))), 'ars:normalize', lambda: f'{y}')
    run.case((str(osp), str(asp), length, K, top, pol.tolist()), length > 1)


def raise_discard(run):
    run.require(False)


# ---------------------------------------------------------------- maximum entropy inverse reinforcement learning
class Cart(RLDomain):
    """Two bounded coordinates which often stick to their bounds."""

    def __init__(self, rng, n_act, length, log):
        self.lo = np.array([rng.choice([-1.2, 0, -3]), rng.choice([-0.07, -1, 5])])
        self.hi = self.lo + np.array([rng.choice([1.8, 1, 4]), rng.choice([0.14, 2, 3])])
        self.n, self.length, self.log = n_act, length, log
        self.push = [[rng.uniform(-0.6, 0.6), rng.uniform(-0.6, 0.6)] for _ in range(n_act)]
        self.begin = [rng.choice([0, 0.5, 0.31, 1]), rng.choice([0, 0.5, 1])]

    def _get_action_space_(self):
        return GymSpace(gs.Discrete(self.n))

    def _get_observation_space_(self):
        return GymSpace(gs.Box(self.lo, self.hi, (2,), np.float64))

    def obs(self):
        return np.minimum(self.hi, self.lo + np.array(self.u) * (self.hi - self.lo))

    def _reset(self):
        self.u, self.t = list(self.begin), 0
        self.log.append([self.obs()])
        return self.obs()

    def _step(self, action):
        p = self.push[int(action)]
        self.u = [min(1.0, max(0.0, x + q)) for x, q in zip(self.u, p)]
        self.t += 1
        self.log[-1].append((int(action), self.obs()))
        return EnvironmentOutcome(self.obs(), Value(reward=self.u[0]), self.t >= self.length)


def cell(x, d, k):
    w = (d.hi - d.lo) / k
    i = [min(k - 1, int((x[j] - d.lo[j]) / w[j])) for j in (0, 1)]
    return i[0] + i[1] * k


def irl(run, rng, epochs, length, k):
    n_act = rng.randint(1, 4)
    log = []
    seed = rng.randrange(1 << 30)
    mk = lambda: Cart(random.Random(seed), n_act, length, log)
    gamma, lr, tlr = rng.choice([0.9, 0.99]), rng.choice([0.03, 0.5]), 0.05
    d = mk()
    demo = np.array([[[d.lo[0] + rng.random() * (d.hi[0] - d.lo[0]), d.lo[1] + rng.choice([0, 1, rng.random()]) * (d.hi[1] - d.lo[1]), rng.randrange(n_act)] for _ in range(3)] for _ in range(2)])
    d0, cwd = tempfile.mkdtemp(prefix='c34_'), os.getcwd()
    os.chdir(d0)
    try:
        f = rng.choice(['demo.npy', os.path.join(d0, 'demo.npy')])
        np.save(f, demo)
        with quiet():
            s = MaxentIRL(n_states=k * k, n_actions=n_act, one_feature=k, gamma=gamma, q_learning_rate=lr, theta_learning_rate=tlr, n_epochs=epochs, expert_trajectories=f)
            s.solve(mk)
            run.check(MaxentIRL.check_domain(mk()), 'irl:refused', '')
            again = MaxentIRL(n_states=k * k, n_actions=n_act, one_feature=k, gamma=gamma, n_epochs=epochs, expert_trajectories=f)
            n_ep = len(log)
            again.solve(mk)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d0)
    run.check(n_ep == epochs, 'irl:episodes', lambda: f'{n_ep} {epochs}', abort=True)
    run.check(len(log) == n_ep and np.array_equal(again.q_table, s.q_table), 'irl:saved-table-not-used', lambda: f'{len(log)} {n_ep}')
    np.random.seed(1)
    theta = -np.random.uniform(size=(k * k,))
    expert = np.zeros(k * k)
    for tr in demo:
        for x in tr:
            expert[cell(x, d, k)] += 1
    expert /= len(demo)
    q = np.zeros((k * k, n_act))
    seen = np.zeros(k * k)
    for e, ep in enumerate(log[:n_ep]):
        if e == 10000 or e > 10000 and e % 5000 == 0:
            theta = np.minimum(0, theta + tlr * (expert - seen / e))
            run.hit('irl:gradient')
        x = ep[0]
        run.check(len(ep) == length + 1, 'irl:episode-length', lambda: f'{len(ep)}', abort=True)
        for a, y in ep[1:]:
            i, j = cell(x, d, k), cell(y, d, k)
            run.hit('irl:updates')
            if (y == d.hi).any():
                run.hit('irl:edge')
            best = q[i].max()
            run.check(q[i][a] >= best - 1e-9, 'irl:not-greedy', lambda: f'{a} {q[i]} at {x} in episode {e}', abort=True)
            q[i][a] += lr * (theta[i] + gamma * q[j].max() - q[i][a])
            seen[i] += 1
            x = y
    run.check(s.q_table.shape == q.shape and np.abs(s.q_table - q).max() < 1e-6 * max(1, np.abs(q).max()), 'irl:table', lambda: f'{s.q_table} want {q}')
    s.q_table = q
    for u in ([0, 0], [1, 1], [0.5, 1], [rng.random(), rng.random()]):
        x = np.minimum(d.hi, d.lo + np.array(u) * (d.hi - d.lo))
        a = s.sample_action(x)
        run.check(0 <= a < n_act and q[cell(x, d, k)][int(a)] >= q[cell(x, d, k)].max() - 1e-9, 'irl:policy', lambda: f'{x} {a} {q[cell(x, d, k)]}')
        run.check(bool(s.is_policy_defined_for(x)), 'irl:policy-undefined', '')
    run.case((k, n_act, length, epochs, q.tolist()), True)


def g_irl(run, rng):
    irl(run, rng, rng.choice([1, 5, 40]), rng.randint(1, 8), rng.choice([2, 3, 5]))


def g_irl_long(run, rng):
    irl(run, rng, rng.choice([10001, 10003, 15001]), rng.randint(1, 2), 2)


GROUPS = [('program', g_program, 900, 6000), ('text', g_text, 120, 1500), ('functions', g_functions, 40, 200), ('reach', g_reach, 30, 300), ('evolution', g_es, 200, 900), ('spaces', g_spaces, 900, 4000), ('cgp', g_cgp, 200, 700),
          ('refuse', g_refuse, 30, 150), ('ars', g_ars, 150, 800), ('irl', g_irl, 120, 600), ('irl_long', g_irl_long, 2, 10)]

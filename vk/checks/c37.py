"""C37 C++ core and domain builders: the real headers, built with sanitizers and the debug containers, execute random histories whose every answer is compared with a reference model."""
import collections
import json
import math
import os
import shutil

from vk import cppdrv

RULE = 'random histories of operations on bounded memories, distributions, spaces, domains (4 kinds), derived containers, conversions and execution policies; non-trivial = a memory that dropped an element, a distribution of at least 3 values, a domain reset and queried, a loop of at least 20 elements'
REQUIRED = {'memory_ops': 15000, 'memory_dropped': 2000, 'memory_alias': 500, 'dist_values': 800, 'dist_samples': 50000, 'dist_copies': 100, 'dist_merged': 150, 'json': 150, 'outcomes': 80,
            'memory_domains': 800, 'domain_resets': 200, 'domain_queries': 2500, 'event_queries': 400, 'containers': 1500, 'conversions': 300, 'loops': 60, 'parallel_overlaps:omp': 10, 'parallel_overlaps:par': 10, 'exclusive': 3000, 'processes': 80}
ASSUMPTIONS = ['weights are non-negative and not all zero, JSON values are integers and words', 'the parallel policy is executed by OpenMP and by real threads through a stand-in of the parallel for_each of the standard library']
BIN = {}
INF = 'inf'


def setup(tier):
    core = [i for i in ('/usr/include/nlohmann', '/usr/local/include/nlohmann') if os.path.exists(i)]
    BIN.update(cppdrv.build(['CORE'], src='core.cc', flags=cppdrv.SAN + ['-D_GLIBCXX_DEBUG'], extra_inc=core, tag='_core'))
    try:
        BIN.update(cppdrv.build(['EVENTS'], src='core.cc', flags=cppdrv.SAN + ['-D_GLIBCXX_DEBUG'], extra_inc=core, tag='_core'))
    except RuntimeError as e:
        BIN['EVENTS'] = str(e)
    BIN['seq'] = cppdrv.build(['EXEC'], src='core.cc', tag='_seq')['EXEC']
    BIN['omp'] = cppdrv.build(['EXEC'], src='core.cc', flags=cppdrv.SAN + ['-fopenmp', '-DHAS_OPENMP'], tag='_omp')['EXEC']
    BIN['par'] = cppdrv.build(['EXEC'], src='core.cc', extra_inc=[os.path.join(cppdrv.HERE, 'incpar')], tag='_thr')['EXEC']


class Script:
    """operations with what each must print: a list of expected lines, or a function of the lines printed"""

    def __init__(self):
        self.text, self.want = [], []

    def add(self, text, want, mech):
        self.text.append(text)
        self.want.append((text, want, mech))

    def play(self, run, name):
        lines = cppdrv.execute(run, BIN[name], '\n'.join(self.text) + '\nend\n', cpu=60)
        if lines is None:
            return
        parts = []
        for l in lines[:-1]:
            if l[0] == '#':
                parts.append([])
            else:
                parts[-1].append(' '.join(l))
        if not run.eq(len(parts), len(self.want), 'sections', parts[-3:]):
            return
        for i, (got, (text, want, mech)) in enumerate(zip(parts, self.want)):
            if callable(want):
                want(got)
            elif got != want:
                run.fail(mech, f'operation {text!r} printed {got}, expected {want}; history {self.text[max(0, i - 12):i]}')
                return
            else:
                run.hit('checks')


def word(rng, n=6):
    return ''.join(rng.choice('abcde') for _ in range(rng.randint(1, n)))


def long_word(rng):
    return word(rng) if rng.random() < .7 else word(rng) + 'x' * rng.randint(10, 40)      # beyond the small-string buffer too


# ---------------------------------------------------------------- memories
def memory(run, rng):
    s, m, dropped = Script(), {}, 0

    def show(d):
        return [f"mem {INF if d.maxlen is None else d.maxlen} {len(d)}" + ''.join(' ' + x for x in d)]

    def ml():
        return None if rng.random() < .2 else rng.randint(0, 5)
    txt = lambda n: INF if n is None else n
    for _ in range(rng.randint(60, 120)):
        ks = sorted(m)
        op = rng.choice(['default', 'new', 'range', 'rangeinf', 'list3', 'copy', 'asg', 'eq', 'del'] + ['pb', 'pf', 'pbl', 'pfl', 'pba', 'pfa'] * 4) if ks else rng.choice(['new', 'range', 'list3'])
        k = rng.randint(0, 4)
        if op in ('asg', 'eq', 'del', 'pb', 'pf', 'pbl', 'pfl', 'pba', 'pfa'):
            k = rng.choice(ks)
        run.hit('memory_ops')
        if op == 'default':
            m[k] = collections.deque()
            s.add(f'm.default {k}', show(m[k]), 'memory:' + op)
        elif op == 'new':
            n = ml()
            m[k] = collections.deque(maxlen=n)
            s.add(f'm.new {k} {txt(n)}', show(m[k]), 'memory:' + op)
        elif op in ('range', 'rangeinf', 'list3'):
            n = None if op == 'rangeinf' else ml()
            v = [long_word(rng) for _ in range(3 if op == 'list3' else rng.randint(0, 9))]
            m[k] = collections.deque(v, maxlen=n)
            dropped += len(v) > len(m[k])
            head = f'm.{op} {k}' + ('' if op == 'rangeinf' else f' {txt(n)}')
            s.add(head + ('' if op == 'list3' else f' {len(v)}') + ''.join(' ' + x for x in v), show(m[k]), 'memory:' + op)
        elif op in ('copy', 'asg'):
            j = rng.choice(ks)
            m[k] = m[j].copy()
            s.add(f'm.{op} {k} {j}', show(m[k]), 'memory:' + op)
        elif op == 'eq':
            j = rng.choice(ks)
            s.add(f'm.eq {k} {j}', [f'eq {int(m[k] == m[j] and m[k].maxlen == m[j].maxlen)}'], 'memory:eq')
        elif op == 'del':
            if len(ks) > 1:
                del m[k]
                s.add(f'm.del {k}', [], 'memory:del')
        else:
            d = m[k]
            full = d.maxlen is not None and len(d) == d.maxlen
            dropped += full
            run.hit('memory_dropped', int(full))
            if op in ('pba', 'pfa'):
                if not d:
                    continue
                v = d[0] if op == 'pba' else d[-1]
                run.hit('memory_alias')
                text, kept = f'm.{op} {k}', []
            else:
                v = long_word(rng)
                text, kept = f'm.{op} {k} {v}', [f'kept {v}'] if op[-1] == 'l' else []
            (d.append if op[1] == 'b' else d.appendleft)(v)
            s.add(text, kept + show(d), 'memory:' + {'b': 'push_back', 'f': 'push_front'}[op[1]])
    run.case(s.text, dropped > 0)
    s.play(run, 'CORE')


# ---------------------------------------------------------------- distributions
def dist(run, rng):
    s, kind = Script(), rng.choice(['s', 's', 'i', 'm'])
    ref, size = {}, 0

    def draw(n):
        pool = [word(rng, 3) if kind != 'i' else str(rng.randint(-40, 40)) for _ in range(max(1, n))]
        v = [(rng.choice(pool), rng.choice([0.0, 1.0, 0.5, 0.25, round(rng.uniform(0.01, 9), 3), 1e-9, 300.0])) for _ in range(n)]
        if n and not sum(p for _, p in v):
            v[0] = (v[0][0], 1.0)
        return v

    def model(v):
        d = collections.OrderedDict()
        for x, p in v:
            d[x] = d.get(x, 0) + p
        if not d:
            d['' if kind != 'i' else '0'] = 1.0
        t = sum(d.values())
        return {x: p / t for x, p in d.items()}

    def values(want, mech):
        def f(got):
            w = got[0].split(' ') if got else []
            if not run.check(len(got) == 1 and w[0] == 'vals' and int(w[1]) == len(want), mech + ':size', lambda: f'got {got} want {want}'):
                return
            d = {w[i][1:]: float(w[i + 1]) for i in range(2, len(w), 2)}
            run.hit('dist_values', len(d))
            run.check(set(d) == set(want) and all(abs(d[x] - want[x]) <= 1e-9 for x in d), mech, lambda: f'got {d} want {want}')
        return f

    def counts(want, n):
        def f(got):
            w = got[0].split(' ') if got else []
            if not run.check(len(got) == 1 and w[0] == 'counts', 'sample:answer', got):
                return
            c = {w[i][1:]: int(w[i + 1]) for i in range(1, len(w), 2)}
            run.hit('dist_samples', n)
            run.check(sum(c.values()) == n and all(want.get(x, 0) > 0 for x in c), 'sample:support', lambda: f'{c} drawn from {want}')
            for x, p in want.items():      # 8 standard deviations (and 12 draws for the rare values)
                run.check(abs(c.get(x, 0) - n * p) <= 8 * math.sqrt(n * p * (1 - p)) + 12, 'sample:frequency', lambda: f'{x}: {c.get(x, 0)} of {n} draws, probability {p}')
        return f
    for _ in range(rng.randint(8, 20)):
        ks = sorted(ref)
        op = rng.choice(['new', 'new', 'list3', 'copy', 'asg', 'move', 'del', 'sample', 'sample', 'sample']) if ks else 'new'
        k = rng.randint(0, 3)
        if op in ('new', 'list3'):
            v = draw(3 if op == 'list3' else rng.choice([0, 1, 2, 3, 5, 12, 40, 90]))
            ref[k] = model(v)
            size = max(size, len(ref[k]))
            run.hit('dist_merged', int(len(v) > len(ref[k])))
            s.add(f'd.{op} {kind} {k} ' + ('' if op == 'list3' else f'{len(v)} ') + ' '.join(f'{x} {p!r}' for x, p in v), values(ref[k], 'values'), 'values')
        elif op in ('copy', 'asg'):
            j = rng.choice(ks)
            if op == 'asg':
                k = rng.choice(ks)
            ref[k] = ref[j]
            run.hit('dist_copies')
            s.add(f'd.{op} {kind} {k} {j}', values(ref[k], 'copied-values'), 'values')
        elif op == 'move':
            j = rng.choice(ks)
            if j == k:
                continue
            ref[k] = ref.pop(j)
            s.add(f'd.move {kind} {k} {j}', values(ref[k], 'moved-values'), 'values')
        elif op == 'del':
            k = rng.choice(ks)
            del ref[k]
            s.add(f'd.del {kind} {k}', [], 'del')
        else:
            k, n = rng.choice(ks), rng.choice([100, 1000, 4000])
            s.add(f'd.sample {kind} {k} {n}', counts(ref[k], n), 'sample')
    v = word(rng)
    s.add(f'single {v}', [f'single {v} {v} {v} 1 {v} 1 {v}'], 'single-value')
    k, n = rng.randint(1, 4), rng.randint(1, 12)
    s.add(f'implicit {k} {n}', ['implicit' + ''.join(f' {i} {int(i % k == 0)}' for i in range(1, n + 1))], 'implicit')
    run.case(s.text, size >= 3)
    s.play(run, 'CORE')


def plain(run, rng):
    s = Script()
    for _ in range(6):
        op = rng.choice(['us', 'ui', 'vi', 'vs', 'ss'])
        v = [word(rng) if op[1] == 's' else rng.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(rng.randint(0, 12))]

        def ok(got, v=v, op=op):
            w = got[0].split(' ', 2) if got else []
            if run.check(len(w) == 3 and w[0] == 'json', 'json:answer', got):
                j = json.loads(w[2])
                run.hit('json')
                run.check(w[1] == '1', 'json:round-trip', got)
                run.check(j == v if op[0] == 'v' else sorted(j) == sorted(set(v)), 'json:elements', lambda: f'{j} for {v}')
        s.add(f'js.{op} {len(v)} ' + ' '.join(map(str, v)), ok, 'json')
        x, t, o, i = rng.choice([0.5, -1.25, 3.0, 1e9, -7.0]), rng.randint(0, 1), word(rng), word(rng)
        g = '%.17g'
        s.add(f'outcome {x!r} {t} {o} {i}', [f'out {o} {g % x} {g % -x} {t} {i} {o} {g % -x} {g % x} {t} {i} {o} {g % -x} {g % x} {t} 1 {o} {g % x} {g % -x} {t} 1'], 'outcome')
        run.hit('outcomes')
        # containers deduced from the hash and equality, or the order, of a key that is a part of the element
        ref, out, ops = {}, [], []
        for n in range(rng.randint(0, 40)):
            c, a = rng.choice(['add', 'add', 'del', 'find']), rng.randint(-4, 6)
            ops.append(f'{c} {a}')
            run.hit('containers')
            if c == 'add':
                out.append(str(int(a not in ref)) * 4)
                ref.setdefault(a, n)
            elif c == 'del':
                out.append(str(int(ref.pop(a, None) is not None)) * 4)
            else:
                out.append(','.join([str(ref.get(a, -1))] * 4))
        kind = rng.choice('hl')
        s.add(f'set.{kind} {len(ops)} ' + ' '.join(ops), ['set ' + ''.join(o + ' ' for o in out) + ' '.join([str(len(ref))] * 4)], 'container:' + kind)
        # conversions
        run.hit('conversions', 3)
        n = rng.randint(-10 ** 6, 10 ** 6)
        s.add(f'conv int {rng.choice(["", " "])}{n}', [f'conv {n} 1'], 'convert')
        bad = rng.choice(['abc', '', 'x12', '99999999999999999999', '-'])
        s.add(f'conv int {bad}', ['throw failure'], 'convert:invalid')
        d = rng.choice([0.5, -2.25, 1024.0, 3e-5])
        s.add(f'conv double {d!r}', [f'conv {g % d} {"%g" % d}'], 'convert')
        w = word(rng)
        s.add(f'conv string {w}', [f'conv {w} 1'], 'convert')
    run.case(s.text)
    s.play(run, 'CORE')


# ---------------------------------------------------------------- domains
def memdom(run, rng):
    """history classes: the length of the memory, its last state, what an uninitialised memory answers"""
    s = Script()
    for _ in range(8):
        kind = rng.choice(['hist', 'fin', 'mark', 'less'])
        n = {'hist': None, 'fin': rng.randint(0, 4), 'mark': 1, 'less': 0}[kind]
        mem = collections.deque(maxlen=0) if kind == 'less' else None
        ops, out, made = [], [], 0
        for _ in range(rng.randint(4, 14)):
            op = rng.choice(['check', 'checkm', 'last', 'setlast', 'lastm', 'init', 'init3', 'push', 'has'])
            run.hit('memory_domains')
            show = lambda: f"mem {INF if n is None else n} {len(mem)}" + ''.join(' ' + x for x in mem)
            if op == 'check':
                ops.append(op)
                out.append('throw invalid_argument' if mem is None else 'check 1')
                made |= kind == 'fin' and mem is not None
            elif op == 'checkm':
                x = rng.choice([None, 0, 1, 2, 3, n])
                ops.append(f'checkm {INF if x is None else x}')
                out.append(f'check {int(kind == "hist" or x == n)}')
                made |= kind == 'fin'
            elif op == 'last':
                ops.append(op)
                out.append('throw invalid_argument' if mem is None else f'last {mem[-1]}' if mem else 'throw out_of_range')
            elif op == 'setlast':
                w = word(rng)
                if not mem:
                    continue
                ops.append(f'setlast {w}')
                mem[-1] = w
                out.append(show())
            elif op == 'lastm':
                v = [word(rng) for _ in range(rng.randint(0, 3))]
                ops.append(f'lastm {len(v)} ' + ' '.join(v))
                out.append(f'last {v[-1]}' if v else 'throw out_of_range')
            elif op in ('init', 'init3'):
                v = [word(rng) for _ in range(3 if op == 'init3' else rng.randint(0, 6))]
                mem = collections.deque(v, maxlen=n)
                ops.append((f'init {len(v)} ' if op == 'init' else 'init3 ') + ' '.join(v))
                out.append(show())
                made |= kind == 'fin'
            elif op == 'push':
                if mem is None:
                    continue
                w = long_word(rng)
                mem.append(w)
                ops.append(f'push {w}')
                out.append(show())
            else:
                ops.append(op)
                out.append(f'has {int(mem is not None)}')
        s.add(kind + (f' {n} ' if kind == 'fin' else ' ') + ' '.join(ops) + ' .', out + ([f'made {int(made)}'] if kind == 'fin' else []), 'history:' + kind)
    run.case(s.text)
    s.play(run, 'CORE')


def domain(run, rng, events=False):
    s = Script()
    for _ in range(3):
        kind, n = rng.choice(['df', 'dp', 'uf', 'up']), rng.choice([None, 0, 1, 2, 3])
        init = [(word(rng, 5), rng.choice([1.0, 0.5, 2.0, 0.0])) for _ in range(1 if kind[0] == 'd' else rng.randint(1, 4))]
        if not sum(p for _, p in init):
            init[0] = (init[0][0], 1.0)
        can = {x for x in {x for x, _ in init} if sum(p for y, p in init if y == x)}
        full = kind[1] == 'f'
        made = collections.Counter()
        ops, checks, mem = [], [], [None]      # mem: the states the memory may hold, as the last observed one
        cur = [None]

        def exact(want, mech):
            def f(line):
                if line != want:
                    run.fail(mech, f'got {line!r} want {want!r}; domain {kind} maxlen {n} initial {init} after {ops}')
                else:
                    run.hit('checks')
            return f

        def reset(line):
            w = line.split(' ')
            ok = len(w) == 2 and w[0] == 'reset'
            st = w[1] if full else w[1][1:] if ok and w[1][0] == 'o' else None
            if run.check(ok and st in can, 'reset:observation', lambda: f'{line!r} for initial states {can}, {kind}'):
                cur[0] = collections.deque([st], maxlen=n)

        def memory(line):
            want = 'nomem' if cur[0] is None else f"mem {INF if n is None else n} {len(cur[0])}" + ''.join(' ' + x for x in cur[0])
            run.check(line == want, 'reset:memory', lambda: f'got {line!r} want {want!r}; domain {kind} after {ops}')

        def last(line):
            want = 'throw invalid_argument' if cur[0] is None else f'last {cur[0][-1]}' if cur[0] else 'throw out_of_range'
            run.check(line == want, 'last-state', lambda: f'got {line!r} want {want!r}')

        def check(line):
            run.check(line == ('throw invalid_argument' if cur[0] is None else 'check 1'), 'check-memory', line)

        def ev(name, e, rel):
            def f(line):
                want = 'throw invalid_argument'
                if cur[0] is not None:
                    k = len(cur[0]) + (len(cur[0][-1]) if cur[0] else 0)
                    want = f'{name} {int(e < k if rel == "<" else e > k)}'
                run.hit('event_queries')
                run.check(line == want, 'events:' + name.rstrip('0'), lambda: f'got {line!r} want {want!r} for {e}; memory {cur[0]}')
            return f
        was = False
        for _ in range(rng.randint(8, 20)):
            op = rng.choice((['enabled', 'applicable', 'enabled0', 'applicable0', 'enabledm', 'applicablem'] * 2 if events else []) +
                            ['reset', 'mem', 'last', 'check', 'state', 'observation', 'goal', 'action', 'event', 'obs', 'same', 'init', 'made', 'push'])
            w, e = word(rng, 6), rng.randint(-2, 9)
            run.hit('domain_queries')
            if op == 'reset':
                ops.append(op)
                checks.append(reset)
                made['initial'], was = 1, True
                run.hit('domain_resets')
            elif op == 'push':
                if was:
                    ops.append(f'push {w}')
                    checks.append(('push', w))
            elif op in ('mem', 'last', 'check'):
                ops.append(op)
                checks.append({'mem': memory, 'last': last, 'check': check}[op])
            elif op == 'state':
                ops.append(f'state {w}')
                made['state'] = made['state'] or 1
                checks.append(exact(f'state {int(len(w) < 4)}', 'is-state'))
            elif op == 'observation':
                w = rng.choice(['o' + w, w])
                ops.append(f'observation {w}')
                made['seen'] = 1
                checks.append(exact(f'observation {int(len(w) < 4 if full else len(w) < 5 and w[0] == "o")}', 'is-observation'))
            elif op == 'goal':
                ops.append(f'goal {w}')
                made['goals'] = 1
                checks.append(exact(f'goal {int(len(w) > 2)}', 'is-goal'))
            elif op == 'action':
                ops.append(f'action {e}')
                made['action'] = 1
                checks.append(exact(f'action {int(e % 4 == 0)}', 'is-action'))
            elif op == 'event':
                ops.append(f'event {e}')
                made['event'] = 1
                checks.append(exact(f'event {int(e % 2 == 0)}', 'event-space'))
            elif op == 'obs':
                e = abs(e)
                ops.append(f'obs {w} {e}')
                x = w if full else f'o{w}{e}'
                checks.append(exact(f'obs {x} {x}', 'observation'))
            elif op == 'same':
                ops.append(op)
                made['goals'] = made['action'] = made['event'] = made['initial'] = made['state'] = made['seen'] = 1
                checks.append(exact('same 111111', 'made-once'))
            elif op == 'init':
                ops.append(op)
                made['initial'] = 1
                checks.append(lambda line: run.check(line.split(' ')[0] == 'init' and set(line.split(' ')[1:]) <= can and len(line.split(' ')) > 1, 'initial-distribution', lambda: f'{line!r} from {init}'))
            elif op in ('enabled', 'enabled0'):
                ops.append(f'{op} {e}')
                checks.append(ev(op, e, '<'))
            elif op in ('applicable', 'applicable0'):
                ops.append(f'{op} {e}')
                checks.append(ev(op, e, '>'))
            elif op in ('enabledm', 'applicablem'):
                v = [word(rng) for _ in range(rng.randint(0, 3))]
                k = len(v) + (len(v[-1]) if v else 0)
                ops.append(f'{op} {len(v)} ' + ' '.join(v + [str(e)]))
                run.hit('event_queries')
                checks.append(exact(f'{op} {int(e < k if op[0] == "e" else e > k)}', 'events:memory'))
            else:
                ops.append('made')
                m = {k: 1 for k in made if k != 'seen'}
                if made['seen']:
                    if full:
                        m['state'] = m.get('state', 0) + 1      # the observation space of a fully observable domain is one more state space
                    else:
                        m['obs'] = 1
                m = {k: v for k, v in m.items() if v}
                checks.append(lambda line, m=m: run.check(line == 'made' + ''.join(f' {k} {m[k]}' for k in sorted(m)), 'made-once', lambda: f'got {line!r} want {m}; {kind} {ops}'))

        def verify(got, checks=checks):
            got = list(got)
            for c in checks:
                if isinstance(c, tuple):
                    if cur[0] is not None:
                        cur[0].append(c[1])
                    continue
                if not run.check(got, 'answers-missing', ops):
                    return
                c(got.pop(0))
            run.check(not got, 'answers-extra', got)
        # (each domain has its own variables: the closures are bound here)
        s.add(f"dom {kind} {INF if n is None else n} {len(init)} " + ' '.join(f'{x} {p!r}' for x, p in init) + ' ' + ' '.join(ops) + ' .', verify, 'domain')
        run.case(s.text[-1], was)
        s.play(run, 'EVENTS' if events else 'CORE')
        s = Script()


def event_domain(run, rng):
    if not os.path.exists(BIN['EVENTS']):
        run.fail('events:does-not-compile', BIN['EVENTS'][-1500:])
        return
    domain(run, rng, True)


# ---------------------------------------------------------------- execution policies
def policies(run, rng):
    s, how = Script(), rng.choice(['seq', 'omp', 'par', 'omp', 'par'])
    for _ in range(4):
        op, n, us = rng.choice(['seq', 'par', 'par']), rng.choice([0, 1, 2, 7, 40, 150]), rng.choice([0, 20, 100])

        def ok(got, op=op, n=n):
            w = got[0].split(' ') if got else []
            if run.check(len(w) == 7, 'loop:answer', got):
                run.hit('loops')
                run.hit('exclusive', 3 * n)
                run.check(w[1] == '0', 'loop:each-element-once', lambda: f'{w[1]} of {n} elements not visited exactly once ({how}, {op})')
                run.check(w[2:5] == [str(n)] * 3, 'protect:exclusive', lambda: f'{n} increments counted {w[2:5]} ({how}, {op})')
                if op == 'seq' or how == 'seq':
                    run.check(int(w[5]) <= 1, 'sequential:overlap', lambda: f'{w[5]} calls at once')
                elif int(w[5]) > 1:
                    run.hit('parallel_overlaps:' + how)
        s.add(f'{op} {n} {us}', ok, 'loop')
    run.case((how, s.text), any(int(t.split(' ')[1]) >= 20 for t in s.text))
    s.play(run, how)


GROUPS = [('memory', memory, 1000, 20000, None), ('dist', dist, 500, 10000, None), ('plain', plain, 250, 5000, None), ('memdom', memdom, 350, 6000, None),
          ('domain', domain, 400, 8000, None), ('event_domain', event_domain, 200, 4000, None), ('policies', policies, 100, 1500, None)]

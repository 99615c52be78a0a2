"""C07 parallel domains: request/answer histories checked for exactly-once, per-domain order and agreement with the sequential domain."""
import os
import random
import sys
import threading
import time

from pathos.helpers import mp
from skdecide import DeterministicPlanningDomain, TransitionValue, ImplicitSpace
from skdecide.domains import PipeParallelDomain, ShmParallelDomain
from skdecide.builders.solver import *
from skdecide.builders.solver.parallelability import ParallelSolver
from skdecide.hub.space.gym import ListSpace

RULE = 'random request scripts (methods, unknown methods, lambdas, failing jobs, several arguments/results of one type) from 1-4 client threads on 1-4 domain processes with injected delays; non-trivial = at least 5 answers'
REQUIRED = {'answers': 500, 'pipe_answers': 100, 'shm_answers': 100, 'failed_jobs': 20, 'lambda_answers': 30, 'notifications': 20, 'threaded_requests': 50, 'multi_results': 30, 'order_checks': 100}
ASSUMPTIONS = ['a request that stays unanswered is a violation only when every process involved is blocked and consumes no CPU']
WORKERS = 8
WATCHDOG = {'quick': 800, 'thorough': 3000}


class Pt:
    def __init__(self, a, b): self.a, self.b = a, b
    def __eq__(self, o): return isinstance(o, Pt) and (self.a, self.b) == (o.a, o.b)
    def __hash__(self): return hash((self.a, self.b))
    def __repr__(self): return f'Pt({self.a},{self.b})'


class Dom(DeterministicPlanningDomain):
    """states are Pt; counts its calls, sleeps when told to"""
    def __init__(self):
        self.count = 0

    def _nap(self, x):
        self.count += 1
        if x % 5 == 0:
            time.sleep(((x * 7919) % 13) / 4000.)

    def _get_next_state(self, m, a):
        self._nap(m.a + a)
        return Pt(m.b + a, m.a * 2 - a)

    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=m.a + a + (n.a if n is not None else 0))
    def _is_terminal(self, s):
        self._nap(s.a)
        return s.a % 2 == 0
    def _get_initial_state_(self): return Pt(3, 4)
    def _get_goals_(self): return ImplicitSpace(lambda s: s.a % 3 == 0)
    def _get_applicable_actions_from(self, m): return ListSpace([0, 1])
    def _get_action_space_(self): return ListSpace([0, 1])
    def _get_observation_space_(self): return ImplicitSpace(lambda s: s.b % 3 == 0)

    # methods unknown to the parallel front-end
    def tag(self, x): self._nap(x); return x * 10 + 1
    def calls(self, x): self.count += 1; return self.count
    def two(self, p, q): self._nap(p.a); return (Pt(q.a, p.b), Pt(q.b, p.a))
    def three(self, x, y, z): self._nap(x); return (x + y, y - z, x * z)
    def mixed(self, x, p, y): self._nap(y); return (Pt(x, y), p.a + p.b, Pt(y, x))
    def nothing(self, x): self._nap(x); return None
    def boom(self, x): raise ValueError(f'boom {x}')
    def boom2(self, p, q): raise KeyError('boom')
    def kind(self, x): return (x % 2 == 1)
    def ratio(self, x, y): return float(x) / (1 + abs(y))


def lam0(domain, x): return domain.tag(x) + 5
def lam1(domain, p, q): return Pt(p.a + q.a, p.b + q.b)
def lam2(domain, x): raise RuntimeError('lambda failed')


LAMBDAS = [lam0, lam1, lam2]


class Unsendable:
    def __reduce_ex__(self, p): raise TypeError('cannot be sent')


class Proxy:
    K = 3

    def register(self): return [(int, self.K), (Pt, self.K), (float, 1), (bool, 1)]
    def copy(self): return Proxy()

    def initialize(self, t):
        if t is int: return mp.Value('l', 0, lock=True)
        if t is float: return mp.Value('d', 0, lock=True)
        if t is bool: return mp.Value('b', False, lock=True)
        return [mp.Value('l', 0), mp.Value('l', 0)]

    def encode(self, v, shm):
        if isinstance(v, Pt):
            shm[0].value, shm[1].value = v.a, v.b
        else:
            shm.value = v

    def decode(self, t, shm):
        if t is Pt:
            return Pt(shm[0].value, shm[1].value)
        return t(shm.value)


def req(rng, uid, shm):
    """-> (function, args); unique ids make every answer attributable"""
    P = lambda: Pt(uid * 100 + rng.randint(0, 9), rng.randint(-50, 50))
    u = uid * 10 + rng.randint(0, 9)
    k = rng.randrange(14)
    t = [('get_next_state', (P(), rng.randint(0, 1))), ('is_terminal', (P(),)), ('tag', (u,)), ('two', (P(), P())), ('three', (u, rng.randint(0, 99), rng.randint(0, 99))),
         ('mixed', (u, P(), rng.randint(0, 9))), ('nothing', (u,)), ('boom', (u,)), ('boom2', (P(), P())), ('kind', (u,)), ('ratio', (u, 3)), (0, (u,)), (1, (P(), P())), (2, (u,))][k]
    return t


def local(fn, args):
    """what the sequential domain answers"""
    d = Dom()
    try:
        r = getattr(d, fn)(*args) if isinstance(fn, str) else LAMBDAS[fn](d, *args)
    except Exception:
        return 'FAIL'
    return r


def same(got, want):
    if isinstance(want, tuple):
        return isinstance(got, (list, tuple)) and list(got) == list(want) and all(type(a) is type(b) for a, b in zip(got, want))
    return got == want and (type(got) is type(want))


def cpu(pid):
    try:
        f = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()
        return f[0], int(f[11]) + int(f[12])
    except OSError:
        return 'X', -1


def blocked_forever(pids):
    a = [cpu(p) for p in pids]
    time.sleep(3)
    b = [cpu(p) for p in pids]
    return all(x[0] in 'SXZ' and x == y for x, y in zip(a, b))


def guarded(run, dom, fn, what):
    """run fn in a thread; a call still pending while every involved process is idle is a lost answer"""
    box = []

    def body():
        try:
            box.append(('ok', fn()))
        except BaseException as e:      # noqa: BLE001
            box.append(('exc', e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(20)
    while t.is_alive():
        pids = [p.pid for p in dom._processes if p is not None] if hasattr(dom, '_processes') else []
        if blocked_forever(pids) and t.is_alive():
            run.fail('no-answer:' + what, f'{what} never returned although all domain processes are idle', abort=True)
        t.join(5)
    if box[0][0] == 'exc':
        raise box[0][1]
    return box[0][1]


def check_answer(run, kind, fn, args, got):
    want = local(fn, args)
    run.hit('answers')
    run.hit(kind + '_answers')
    if not isinstance(fn, str):
        run.hit('lambda_answers')
    if isinstance(want, tuple):
        run.hit('multi_results')
    if want == 'FAIL':
        run.hit('failed_jobs')
        run.check(got is None, f'{kind}:failed-job-returns-something', lambda: f'{fn}{args} raised in the domain but get_result gave {got!r}')
    else:
        run.check(same(got, want), f'{kind}:answer', lambda: f'{fn}{args}: got {got!r} want {want!r}')


def make(rng, kind, n, notify=False):
    if kind == 'pipe':
        return PipeParallelDomain(Dom, lambdas=LAMBDAS, nb_domains=n, ipc_notify=notify)
    return ShmParallelDomain(Dom, Proxy(), lambdas=LAMBDAS, nb_domains=n, ipc_notify=notify)


def stop(dom):
    for p in list(dom._processes):
        try:
            if p is not None and p.is_alive():
                p.terminate()
        except Exception:
            pass
    m = dom.__dict__.get('_manager')
    if m is not None:
        try:
            m.shutdown()
        except Exception:
            pass


def script(run, rng):
    kind = rng.choice(['pipe', 'shm'])
    n = rng.randint(1, 4)
    dom = make(rng, kind, n)
    outstanding, calls = {}, [0] * n
    sigs = []
    try:
        run.check(dom.nb_domains() == n and dom.get_parallel_capacity() == n, f'{kind}:capacity')
        with dom:
            for uid in range(1, rng.randint(15, 50)):
                if len(outstanding) == n or (outstanding and rng.random() < .35):
                    i = rng.choice(list(outstanding))
                    fn, args = outstanding.pop(i)
                    got = guarded(run, dom, lambda: dom.get_result(i), f'{kind}:{fn}')
                    check_answer(run, kind, fn, args, got)
                    continue
                fn, args = req(rng, uid, kind == 'shm')
                explicit = rng.choice([j for j in range(n) if j not in outstanding]) if rng.random() < .4 else None
                if isinstance(fn, str):
                    i = guarded(run, dom, lambda: getattr(dom, fn)(*args, i=explicit), f'{kind}:send')
                else:
                    i = guarded(run, dom, lambda: dom.call(explicit, fn, *args), f'{kind}:send')
                sigs.append((fn, explicit))
                run.check(i is not None and 0 <= i < n, f'{kind}:domain-id', (fn, i))
                run.check(i not in outstanding, f'{kind}:busy-domain-assigned', (i, outstanding))
                run.check(explicit is None or i == explicit, f'{kind}:explicit-domain', (explicit, i))
                outstanding[i] = (fn, args)
            for i in list(outstanding):
                fn, args = outstanding.pop(i)
                check_answer(run, kind, fn, args, guarded(run, dom, lambda: dom.get_result(i), f'{kind}:{fn}'))
            # a request that cannot be delivered must not consume a domain
            bad = [object()] if kind == 'shm' else [Unsendable()]
            for _ in range(n):
                dom.launch(None, 'tag', bad[0])
            for k in range(n):
                i = guarded_wake(run, dom, kind, 1000 + k)
                if i is None:
                    break
                check_answer(run, kind, 'tag', (1000 + k,), guarded(run, dom, lambda: dom.get_result(i), f'{kind}:after-undeliverable'))
            # per-domain order and exactly-once: each domain executed exactly the requests it was sent
            base = {}
            for k in range(3 * n):
                j = rng.randrange(n)
                dom.launch(j, 'calls', k)
                c = guarded(run, dom, lambda: dom.get_result(j), f'{kind}:calls')
                run.hit('order_checks')
                if j in base:
                    run.check(c == base[j] + 1, f'{kind}:executed-other-than-once', (j, c, base[j]))
                base[j] = c
        run.check(all(p is None for p in dom._processes), f'{kind}:closed')
    finally:
        stop(dom)
    run.case((kind, n, sigs), len(sigs) > 4)


def guarded_wake(run, dom, kind, x):
    box = []
    t = threading.Thread(target=lambda: box.append(dom.launch(None, 'tag', x)), daemon=True)
    t.start()
    t.join(15)
    if t.is_alive():
        # nothing is outstanding: a free domain must be found
        run.fail(f'{kind}:domain-lost-after-undeliverable-request', 'no free domain although no request is outstanding')
        for j in range(len(dom._active_domains)):
            dom._active_domains[j] = False
        t.join()
        dom.get_result(box[0])
        return None
    return box[0]


def threads(run, rng):
    """several client threads share the front-end: no domain serves two requests at once, every answer goes to its request"""
    kind = rng.choice(['pipe', 'shm'])
    n, nt = rng.randint(2, 4), rng.randint(2, 4)
    dom = make(rng, kind, n)
    busy, lock, viol, done = set(), threading.Lock(), [], []
    seeds = [rng.getrandbits(32) for _ in range(nt)]
    old = sys.getswitchinterval()

    def client(c):
        r = random.Random(seeds[c])
        try:
            for k in range(25):
                x = (c + 1) * 1000 + k
                i = dom.launch(None, 'tag', x)
                with lock:
                    if i in busy:
                        viol.append(('busy-domain-assigned', c, k, i))
                        return
                    busy.add(i)
                if r.random() < .3:
                    time.sleep(r.random() / 500)
                with lock:           # leave before the front-end may hand it out again
                    busy.discard(i)
                got = dom.get_result(i)
                done.append((x, got))
        except BaseException as e:      # noqa: BLE001
            viol.append(('exception', repr(e)))
    try:
        with dom:
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=client, args=(c,), daemon=True) for c in range(nt)]
            for t in ts: t.start()
            for t in ts:
                t.join(20)
                while t.is_alive():
                    if viol:
                        break
                    if blocked_forever([p.pid for p in dom._processes]):
                        viol.append(('no-answer', 'all domains idle'))
                        break
                    t.join(5)
            sys.setswitchinterval(old)
            run.hit('threaded_requests', len(done))
            run.check(not viol, f'{kind}:threads:' + (viol[0][0] if viol else ''), viol, abort=True)
            for x, got in done:
                run.hit('answers')
                run.check(got == x * 10 + 1, f'{kind}:threads:answer', (x, got))
    finally:
        sys.setswitchinterval(old)
        stop(dom)
    run.case((kind, n, nt, tuple(x for x, _ in done)[:40]), len(done) > 5)


def notify(run, rng):
    # sockets must not be inherited by forked domain servers: one interpreter per case
    run.isolated('vk.checks.c07', 'notify_case', rng.getrandbits(32))


def notify_case(run, rng):
    """with inter-process notification, every request is notified exactly once and its answer still retrievable"""
    from pynng import Pull0, exceptions
    kind = rng.choice(['pipe', 'shm'])
    n = rng.randint(1, 2)
    dom = make(rng, kind, n, True)
    pulls = []
    try:
        with dom:
            conns = dom.get_ipc_connections()
            run.check(len(conns) == n and len(set(conns)) == n, f'{kind}:ipc-connections', conns)
            for c in conns:
                p = Pull0(recv_timeout=20000)
                p.listen(c)
                pulls.append(p)
            for uid in range(1, 12):
                fn, args = req(rng, uid, True)
                i = dom.launch(None, fn, *args)
                try:
                    msg = pulls[i].recv()
                except exceptions.Timeout:
                    if blocked_forever([p.pid for p in dom._processes]):
                        run.fail(f'{kind}:not-notified', (fn, args), abort=True)
                    msg = pulls[i].recv()
                ok = local(fn, args) != 'FAIL'
                run.hit('notifications')
                run.check((msg == b'0') == ok, f'{kind}:notification', (fn, args, msg))
                got = guarded(run, dom, lambda: dom.get_result(i), f'{kind}:notified:{"ok" if ok else "failed-job"}')
                check_answer(run, kind, fn, args, got)
            for p in pulls:
                p.recv_timeout = 100
                try:
                    run.fail(f'{kind}:notified-twice', p.recv())
                except exceptions.Timeout:
                    pass
    finally:
        for p in pulls:
            p.close()
        stop(dom)
    run.case((kind, n, uid))


def solver_mixin(run, rng):
    """a parallel solver sees the same answers with and without parallelism"""
    par = rng.random() < .7
    proxy = Proxy() if rng.random() < .5 else None

    class S(ParallelSolver):
        pass
    s = S(Dom, parallel=par, shared_memory_proxy=proxy)
    s._lambdas = LAMBDAS
    s._initialize()
    dom = s.get_domain()
    try:
        for uid in range(1, 8):
            fn, args = req(rng, uid, True)
            if not isinstance(fn, str) or local(fn, args) == 'FAIL':
                continue
            got = guarded(run, dom, lambda: s.call_domain_method(fn, *args), 'mixin')
            check_answer(run, 'shm' if (par and proxy is not None) else 'pipe' if par else 'seq', fn, args, got)
    finally:
        if par:
            s.close()
            stop(dom)
        else:
            s._cleanup()
    run.case((par, proxy is None, uid))


GROUPS = [('script', script, 40, 400, None), ('threads', threads, 16, 160, None), ('notify', notify, 16, 100, None), ('mixin', solver_mixin, 16, 60, None)]

"""Shared runner: every check module exposes GROUPS = [(name, func, n_quick, n_thorough)] and RULE.

func(run, rng) executes ONE case against the real code in /repo; `run` is the monitor context.  Verdicts:
  exit 0  held on everything explored (and every required monitor counter was reached)
  exit 1  VIOLATION line(s) on stdout
  exit 3  inconclusive (a monitor was never reached, watchdog)         exit 2  harness error
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')


class BudgetExceeded(BaseException):
    """Logical-step budget (function entries + jumps) exhausted: the code under test makes no progress."""


class Discard(Exception):
    """The generated case does not meet the property's precondition (counted, never a verdict)."""


class _Abort(BaseException):
    """Stop the current case after a violation was recorded."""


# ---------------------------------------------------------------- logical step budget (PEP 669)
_TOOL = 4


class StepMeter:
    def __init__(self):
        self.n = 0
        self.limit = None
        self.on = False

    def start(self, limit):
        if limit is None:
            return
        self.n = 0
        self.limit = limit
        m = sys.monitoring
        if not self.on:
            m.use_tool_id(_TOOL, 'vk')
            ev = m.events

            def cb(*_a):
                self.n += 1
                if self.n >= self.limit:
                    self.limit += 200000
                    raise BudgetExceeded(self.n)
            m.register_callback(_TOOL, ev.PY_START, cb)
            m.register_callback(_TOOL, ev.JUMP, cb)
            self.on = True
        m.set_events(_TOOL, m.events.PY_START | m.events.JUMP)

    def stop(self):
        if self.on:
            self.limit = float('inf')
            sys.monitoring.set_events(_TOOL, 0)


METER = StepMeter()


def _canon(o, depth=0):
    try:
        return repr(o)[:1500]
    except Exception as e:          # noqa: BLE001
        return f'<unreprable {type(o).__name__}: {e}>'


class Run:
    """Monitor context given to case functions."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.counters = {}
        self.distinct = set()
        self.nontrivial = 0
        self.samples = []
        self.violations = []
        self.evals = 0
        self.discarded = 0
        self._cur = None
        self._n_case_v = 0

    # ---- monitor events
    def hit(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def case(self, sig, nontrivial=True):
        """Record the signature of the (non-trivial) case observed."""
        if nontrivial:
            h = hashlib.blake2b(_canon(sig).encode(), digest_size=8).hexdigest()
            self.distinct.add((self._cur[0], h))
            if len([s for s in self.samples if s['group'] == self._cur[0]]) < 2:
                self.samples.append({'group': self._cur[0], 'index': self._cur[1], 'case': _canon(sig)[:600]})

    def fail(self, mech, detail='', abort=False):
        self.hit('violations_seen')
        if len(self.violations) < 400:
            self.violations.append({'mech': mech, 'group': self._cur[0], 'index': self._cur[1], 'detail': _canon(detail) if not isinstance(detail, str) else detail[:3000]})
        if abort:
            raise _Abort()

    def check(self, cond, mech, detail='', abort=False):
        self.hit('checks')
        if not cond:
            self.fail(mech, detail() if callable(detail) else detail, abort)
        return bool(cond)

    def eq(self, got, want, mech, detail=''):
        return self.check(_safe_eq(got, want), mech, lambda: f'got {_canon(got)} want {_canon(want)} {detail}')

    def require(self, cond):
        if not cond:
            raise Discard()

    def run_case(self, group, func, idx, budget):
        self._cur = (group, idx)
        rng = random.Random(f'{self.pid}/{self.seed}/{group}/{idx}')
        random.seed(rng.getrandbits(64))
        try:
            import numpy as np
            np.random.seed(rng.getrandbits(32))
        except ImportError:
            pass
        self.evals += 1
        self.hit('cases:' + group)
        try:
            METER.start(budget)
            try:
                func(self, rng)
            finally:
                METER.stop()
        except Discard:
            self.discarded += 1
            self.hit('discarded:' + group)
        except _Abort:
            pass
        except BudgetExceeded:
            self.fail('no-progress', 'logical step budget exhausted (function entries + jumps) ' + traceback.format_exc()[-1500:])
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:      # noqa: BLE001  an exception on a valid case is a violation
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(REPO + '/')]
            where = f'{os.path.relpath(loc[-1].filename, REPO)}:{loc[-1].name}' if loc else 'harness'
            self.hit('exceptions')
            self.fail(f'exception:{type(e).__name__}:{where}', traceback.format_exc()[-2500:])


    def isolated(self, modname, funcname, seed, timeout=300):
        """Run one case function in a freshly exec'd interpreter (no inherited threads/sockets) and merge what it monitored."""
        import subprocess
        code = ('import sys, json, random\nfrom vk import common\ncommon.silence()\nimport importlib\n'
                f'm = importlib.import_module({modname!r})\nr = common.Run({self.pid!r}, {self.tier!r}, {self.seed!r})\n'
                f'r.run_case({self._cur[0]!r}, lambda run, rng: getattr(m, {funcname!r})(run, random.Random({seed!r})), {self._cur[1]!r}, None)\n'
                'import os\nos.write(3, json.dumps([r.counters, sorted(h for _, h in r.distinct), r.samples, r.violations, r.discarded]).encode())\nos._exit(0)\n')
        rd, wr = os.pipe()
        try:
            p = subprocess.Popen(['bash', '-c', f'exec "$0" -c "$1" 3>&{wr}', sys.executable, code], pass_fds=[wr], stdout=subprocess.DEVNULL,
                                 stderr=None if os.environ.get('VK_STDERR') else subprocess.DEVNULL, start_new_session=True)
            os.close(wr)
            wr = None
            buf = b''
            import select
            end = time.time() + timeout
            while time.time() < end:
                if select.select([rd], [], [], 1)[0]:
                    b = os.read(rd, 1 << 20)
                    if not b:
                        break
                    buf += b
                elif p.poll() is not None:
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        finally:
            os.close(rd)
            if wr is not None:
                os.close(wr)
        if not buf:
            raise Discard()
        c, d, smp, v, disc = json.loads(buf)
        c.pop('cases:' + self._cur[0], None)
        for k, n in c.items():
            self.hit(k, n)
        for h in d:
            self.distinct.add((self._cur[0], h))
        if len([s for s in self.samples if s['group'] == self._cur[0]]) < 2:
            self.samples += smp[:1]
        self.violations += v
        self.discarded += disc


def _safe_eq(a, b):
    try:
        r = a == b
        if isinstance(r, bool):
            return r
        import numpy as np
        return bool(np.all(r))
    except Exception:       # noqa: BLE001
        return False


def silence():
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)


def _worker(pid, tier, seed, jobs, conn, modname, t0, at):
    try:
        silence()
        devnull = open(os.devnull, 'w')
        sys.stdout = devnull
        if not os.environ.get('VK_STDERR'):
            sys.stderr = devnull
        run = Run(pid, tier, seed)
        mod = importlib.import_module(modname)
        groups = {g[0]: g for g in mod.GROUPS}
        told, stuck = set(), 0
        for k, (g, idx) in enumerate(jobs):
            at.value = k
            spec = groups[g]
            budget = spec[4] if len(spec) > 4 else 8_000_000
            n = len(run.violations)
            run.run_case(g, spec[1], idx, budget)
            for v in run.violations[n:]:
                stuck += v['mech'] == 'no-progress'
                if v['mech'] not in told and len(told) < 8:         # told at once: a later case may never end
                    told.add(v['mech'])
                    conn.send(('partial', [v]))
            if stuck >= 3 or told and time.time() - t0 > 420:       # the verdict is known: what is left would only take time
                break
        conn.send(('ok', run.counters, run.distinct, run.samples, run.violations, run.evals, run.discarded))
    except BaseException:       # noqa: BLE001
        conn.send(('err', traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {f['mechanism']: f['what'] for f in json.load(open(p))['findings'] if f['property'] == pid}


def main(pid, tier=None, replay=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ.setdefault('PYTHONHASHSEED', '0')
    silence()
    modname = 'vk.checks.' + pid.lower()
    sys.path.insert(0, VERIF)
    rep = None
    if replay:
        rep = json.load(open(replay))
        seed, tier = rep['seed'], rep['tier']
    results = []
    boot_err = None
    try:
        mod = importlib.import_module(modname)
        if hasattr(mod, 'setup'):
            mod.setup(tier)
    except BaseException as e:      # noqa: BLE001
        tbs = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + '/') for f in tbs):
            boot_err = traceback.format_exc()     # the code under test no longer imports
            mod = None
        else:
            traceback.print_exc()
            return 2
    if mod is not None:
        jobs = []
        for spec in mod.GROUPS:
            n = spec[3] if tier == 'thorough' else spec[2]
            jobs += [(spec[0], i) for i in range(n)]
        if rep:
            jobs = [(rep['group'], rep['index'])]
        nw = min(int(os.environ.get('VK_WORKERS', getattr(mod, 'WORKERS', 8))), max(1, len(jobs)))
        shuf = random.Random(seed)
        shuf.shuffle(jobs)
        procs, mine = [], {}
        ctx = mp.get_context('fork')
        for w in range(nw):
            r, s = ctx.Pipe(False)
            at = ctx.Value('i', -1, lock=False)
            p = ctx.Process(target=_worker, args=(pid, tier, seed, jobs[w::nw], s, modname, t0, at))
            p.start()
            s.close()
            procs.append((p, r))
            mine[r] = (jobs[w::nw], at)
        limit = getattr(mod, 'WATCHDOG', {}).get(tier, 800 if tier == 'quick' else 3000)
        bad = None
        from multiprocessing.connection import wait
        open_ = {r: p for p, r in procs}
        early = {r: [] for r in open_}
        while open_:
            left = limit - (time.time() - t0)
            ready = wait(list(open_), max(0.1, left)) if left > 0 else []
            if not ready:
                bad = 'watchdog: worker did not finish'
                break
            for r in ready:
                try:
                    m = r.recv()
                except EOFError:
                    p = open_.pop(r)
                    p.join(10)
                    todo, at = mine[r]
                    if p.exitcode in (-4, -6, -7, -8, -11) and at.value >= 0:       # native code under test aborted or crashed
                        g, i = todo[at.value]
                        early[r].append({'mech': f'crash:signal{p.exitcode}', 'group': g, 'index': i, 'detail': f'the process running case {i} of group {g} was ended by signal {-p.exitcode}'})
                    else:
                        bad = f'worker died without reporting (exit {p.exitcode})'
                    continue
                if m[0] == 'partial':
                    early[r] += m[1]
                    if len(open_) == sum(1 for o in open_ if early[o]) and all(any(v['mech'] == 'no-progress' for v in early[o]) for o in open_):
                        limit = min(limit, time.time() - t0 + 120)      # every worker left is stuck and has said so
                else:
                    results.append(m)
                    early.pop(r, None)
                    del open_[r]
        results += [('ok', {}, set(), [], v, 0, 0) for v in early.values() if v]
        for p, r in procs:
            if p.is_alive():
                p.join(0.2)
            if p.is_alive():
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            p.join()
        for res in results:
            if res[0] == 'err':
                print(res[1], file=sys.stderr)
                bad = 'harness error in worker'
    else:
        bad = None
    counters, distinct, samples, viols, evals, disc = {}, set(), [], [], 0, 0
    for res in results:
        if res[0] != 'ok':
            continue
        for k, v in res[1].items():
            counters[k] = counters.get(k, 0) + v
        distinct |= res[2]
        samples += res[3]
        viols += res[4]
        evals += res[5]
        disc += res[6]
    if boot_err:
        viols.append({'mech': 'import', 'group': 'import', 'index': 0, 'detail': boot_err[-3000:]})
        evals += 1
    viols.sort(key=lambda v: (v['group'], v['index'], v['mech']))
    known = load_known(pid)
    seen_known, new = {}, {}
    for v in viols:
        if v['mech'] in known:
            seen_known.setdefault(v['mech'], v)
        else:
            new.setdefault((v['group'], v['mech']), v)
    for m, v in sorted(seen_known.items()):
        print(f'KNOWN-FINDING: property={pid} {known[m]}')
    nv = 0
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    for (g, m), v in sorted(new.items()):
        nv += 1
        if nv <= 12:
            path = os.path.join(OUT, 'replay', f'{pid}-{nv}.json')
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'group': g, 'index': v['index'], 'mech': m, 'detail': v['detail'],
                       'replay': f'cd /verif && ./run {pid} --replay {path}'}, open(path, 'w'), indent=1)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'   group={g} index={v["index"]} mechanism={m}')
            print('   ' + v['detail'][-1200:].replace('\n', '\n   '))
    need = getattr(mod, 'REQUIRED', {}) if mod else {}
    missing = [k for k, n in need.items() if counters.get(k, 0) < n] if not rep else []
    picked, per = [], {}
    for s in sorted(samples, key=lambda s: (s['group'], s['index'])):
        if per.setdefault(s['group'], 0) < 1:
            per[s['group']] += 1
            picked.append(s)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': getattr(mod, 'RULE', ''),
                       'samples': picked[:12] or [{'case': 'none'}], 'discarded': disc,
                       'monitor_events': {k: counters[k] for k in sorted(counters)}},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'violations': nv, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not rep:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1)
    print(f'{pid} {tier} seed={seed}: {evals} cases, {len(distinct)} distinct, {counters.get("checks", 0)} monitor checks, {nv} violations, {len(seen_known)} known, {disc} discarded, {ev["wall_s"]}s')
    if nv:
        return 1
    if bad:
        print('INCONCLUSIVE', bad)
        return 3
    if missing:
        print('INCONCLUSIVE monitors never (sufficiently) reached:', {k: (counters.get(k, 0), need[k]) for k in missing})
        return 3
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    rp = None
    if '--replay' in a:
        i = a.index('--replay')
        rp = a[i + 1]
        del a[i:i + 2]
    sys.exit(main(a[0], a[1] if len(a) > 1 else None, rp))

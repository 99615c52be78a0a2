"""Random scheduling problems, the real scheduling domains built for them, and an independent reference simulator."""
from enum import Enum
from fractions import Fraction
from itertools import product

from skdecide import DiscreteDistribution
from skdecide.builders.scheduling.scheduling_domains import DeterministicSchedulingDomain, UncertainSchedulingDomain, SchedulingDomain, SchedulingObjectiveEnum
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum as E
from skdecide.builders.scheduling.modes import MultiMode, SingleMode, ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling.resource_consumption import ConstantResourceConsumption, VariableResourceConsumption
from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity, ResumeType
from skdecide.builders.scheduling.resource_type import WithoutResourceUnit
from skdecide.builders.scheduling.resource_renewability import MixedRenewable, RenewableOnly
from skdecide.builders.scheduling.task_duration import (DeterministicTaskDuration, UncertainUnivariateTaskDuration, UniformBoundedTaskDuration,
                                                       EnumerableTaskDuration, UncertainMultivariateTaskDuration, SimulatedTaskDuration)
from skdecide.builders.scheduling.task_progress import DeterministicTaskProgress
from skdecide.builders.scheduling.skills import WithResourceSkills, WithoutResourceSkills
from skdecide.builders.scheduling.time_lag import WithoutTimeLag
from skdecide.builders.scheduling.time_windows import WithoutTimeWindow
from skdecide.builders.scheduling.preallocations import WithoutPreallocations
from skdecide.builders.scheduling.conditional_tasks import WithConditionalTasks, WithoutConditionalTasks
from skdecide.builders.scheduling.resource_availability import DeterministicResourceAvailabilityChanges, WithoutResourceAvailabilityChange
from skdecide.builders.scheduling.resource_costs import WithModeCosts, WithResourceCosts, WithoutModeCosts, WithoutResourceCosts


class Cond(Enum):
    A = 0
    B = 1
    C = 2
    N = 3


class Spec:
    """kind det/unc/sim; modes {t:{m:{r:[need per time]}}}; durs {t:{m:{d:p}}}; cal {r: f(t)}; ..."""

    def __str__(self):
        return str({k: v for k, v in self.__dict__.items()})


def gen(rng, kind=None, skills=False, preempt=None, calendar=None, varying=None, cond=None, single=None, nmax=6, costs=None, tight=False):
    s = Spec()
    s.kind = kind or rng.choice(['det', 'unc', 'sim'])
    n = rng.randint(1, nmax)
    base = rng.choice([0, 1, 1, 5])
    ids = [base + rng.choice([1, 1, 3]) * i for i in range(n)]
    ids = sorted(set(ids))
    if rng.random() < .3:
        rng.shuffle(ids)
    s.ids = ids
    n = len(ids)
    pd = rng.choice([0, .2, .4, .7])
    order = ids[:]
    rng.shuffle(order)
    s.succ = {t: [] for t in ids}
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < pd:
                s.succ[order[i]].append(order[j])
    s.single = rng.random() < .3 if single is None else single
    s.skills = skills
    s.types = ['r%d' % i for i in range(rng.randint(0 if skills else 1, 3))]
    mixed = rng.random() < .5
    s.ren = {r: not mixed or rng.random() < .6 for r in s.types}
    s.units, s.unit_skills, s.sk = [], {}, ['S1', 'S2']
    if skills:
        s.units = ['w%d' % i for i in range(rng.randint(1, 4))]
        for u in s.units:
            s.ren[u] = True
            s.unit_skills[u] = {k: rng.choice([1, 1, 2]) for k in s.sk if rng.random() < .6}
    s.cal = rng.random() < .35 if calendar is None else calendar
    s.avail = {}
    s.H = 200
    for r in s.types:
        b = rng.randint(1, 4) if s.ren[r] else rng.randint(2, 3 * n + 2)
        s.avail[r] = [b] * (s.H + 3)
        if s.cal and s.ren[r]:
            for _ in range(rng.randint(1, 4)):
                a = rng.randint(0, 12)
                for k in range(a, min(s.H, a + rng.randint(1, 6))):
                    s.avail[r][k] = rng.randint(0, b)
    for u in s.units:
        s.avail[u] = [1] * (s.H + 3)
        if s.cal:
            a = rng.randint(0, 8)
            for k in range(a, a + rng.randint(1, 5)):
                s.avail[u][k] = 0
    s.varying = (not skills and rng.random() < .2) if varying is None else varying
    s.modes, s.durs, s.tsk = {}, {}, {}
    for t in ids:
        s.modes[t], s.durs[t], s.tsk[t] = {}, {}, {}
        for m in [1] if s.single else rng.sample([1, 2, 3], rng.randint(1, 3)):
            ds = {rng.choice([0, 1, 1, 2, 3, 4]): 1}
            if s.kind != 'det' and rng.random() < .6:
                ds = {d: rng.choice([1, 1, 2]) for d in rng.sample(range(0 if rng.random() < .2 else 1, 5), rng.randint(2, 3))}
            if s.kind != 'det' and rng.random() < .25:
                lo = rng.randint(1, 3)
                ds = {d: 1 for d in range(lo, lo + rng.randint(1, 3))}
            tot = sum(ds.values())
            s.durs[t][m] = {d: Fraction(w, tot) for d, w in ds.items()}
            dm = max(ds)
            s.modes[t][m] = {}
            for r in s.types:
                mx = max(s.avail[r]) if s.ren[r] else 4
                need = rng.choice([0, 1, 1, 2, rng.randint(0, mx + (1 if rng.random() < .05 else 0))])
                need = min(need, mx) if rng.random() < .95 else need
                if rng.random() < .1:
                    continue
                if s.varying and s.ren[r]:
                    s.modes[t][m][r] = [rng.randint(0, mx) for _ in range(max(1, dm))]
                else:
                    s.modes[t][m][r] = [need] * max(1, dm)
            if skills:
                s.tsk[t][m] = {k: rng.choice([0, 1, 1, 2]) for k in s.sk if rng.random() < .5}
    s.pre = (rng.random() < .35) if preempt is None else preempt
    s.preempt = {t: s.pre and rng.random() < .7 for t in ids}
    s.rtype = {t: (rng.choice([ResumeType.Resume, ResumeType.Resume, ResumeType.Restart]) if not s.varying else ResumeType.Resume) if s.preempt[t] else ResumeType.NA for t in ids}
    s.returned = {t: rng.random() < .5 for t in ids}
    s.cond = (s.kind != 'det' and rng.random() < .4) if cond is None else cond
    s.exist, s.added = {}, {}
    if s.cond:
        for t in ids:
            if rng.random() < .35:
                s.exist[t] = rng.sample([Cond.A, Cond.B, Cond.C], rng.choice([1, 1, 2]))
            elif rng.random() < .1:
                s.exist[t] = []
        for t in ids:
            if rng.random() < .6:
                s.added[t] = []
                for _ in range(rng.choice([0, 1, 1, 2])):
                    vs = rng.sample(list(Cond), rng.randint(1, 3))
                    s.added[t].append({v: Fraction(1, len(vs)) for v in vs})
    s.obj = rng.choice([[0], [0], [1], [0, 1]]) if costs is None else ([0, 1] if costs else [0])
    s.mcost = {t: {m: rng.choice([0, 1, 2.5]) for m in s.modes[t]} for t in ids}
    s.rcost = {r: rng.choice([0, 1, .5]) for r in s.types + s.units}
    s.hz = s.H - 1 if rng.random() < .8 else rng.randint(2, 12)
    s.style = rng.choice(['enum', 'uni', 'multi', 'bounded'])
    return s


def build(s, extra_bases=()):
    """The real domain for a spec, composed from the library's characteristics."""
    Mode = VaryingModeConsumption if s.varying else ConstantModeConsumption
    modes = {t: {m: Mode({r: (list(v) if s.varying else v[0]) for r, v in s.modes[t][m].items()}) for m in s.modes[t]} for t in s.ids}
    d = {'_get_max_horizon': lambda self: s.hz,
         '_get_tasks_ids': lambda self: list(s.ids),
         '_get_successors': lambda self: {t: list(v) for t, v in s.succ.items()},
         '_get_resource_types_names': lambda self: list(s.types),
         '_get_objectives': lambda self: [SchedulingObjectiveEnum(o) for o in s.obj]}
    if s.single:
        d['_get_tasks_mode'] = lambda self: {t: modes[t][1] for t in s.ids}
    else:
        d['_get_tasks_modes'] = lambda self: modes
    bases = [{'det': DeterministicSchedulingDomain, 'unc': UncertainSchedulingDomain, 'sim': SchedulingDomain}[s.kind]]
    bases.append(SingleMode if s.single else MultiMode)
    val = lambda q, m: s.durs[q][m]
    if s.kind == 'det':
        bases.append(DeterministicTaskDuration)
        d['_get_task_duration'] = lambda self, task, mode=1, progress_from=0.: next(iter(val(task, mode)))
    elif s.kind == 'unc':
        uni = all(sorted(v) == list(range(min(v), max(v) + 1)) and len(set(v.values())) == 1 for q in s.durs.values() for v in q.values())
        if uni and s.style == 'bounded':
            bases.append(UniformBoundedTaskDuration)
            d['_get_task_duration_upper_bound'] = lambda self, task, mode=1, progress_from=0.: max(val(task, mode))
            d['_get_task_duration_lower_bound'] = lambda self, task, mode=1, progress_from=0.: min(val(task, mode))
        else:
            bases.append({'enum': EnumerableTaskDuration, 'uni': UncertainUnivariateTaskDuration, 'multi': UncertainMultivariateTaskDuration, 'bounded': UncertainUnivariateTaskDuration}[s.style])
            d['_get_task_duration_distribution'] = lambda self, task, mode=1, progress_from=0., multivariate_settings=None: DiscreteDistribution([(k + (multivariate_settings['t'] % 3 if getattr(s, 'tdep', False) and multivariate_settings else 0), float(p)) for k, p in val(task, mode).items()])
    else:
        import random
        d['_sample_task_duration'] = lambda self, task, mode=1, progress_from=0.: random.choice(sorted(val(task, mode)))
    bases.append(DeterministicTaskProgress)
    if s.skills:
        d['_get_resource_units_names'] = lambda self: list(s.units)
        d['_get_resource_type_for_unit'] = lambda self: {}
        d['_get_all_resources_skills'] = lambda self: {**{u: dict(v) for u, v in s.unit_skills.items()}, **{r: {} for r in s.types}}
        d['_get_all_tasks_skills'] = lambda self: {t: {m: dict(v) for m, v in q.items()} for t, q in s.tsk.items()}
        bases.append(WithResourceSkills)
    else:
        bases += [WithoutResourceUnit, WithoutResourceSkills]
    if s.pre:
        bases.append(WithPreemptivity)
        d['_get_task_preemptivity'] = lambda self: dict(s.preempt)
        d['_get_task_resuming_type'] = lambda self: dict(s.rtype)
        d['_get_task_paused_non_renewable_resource_returned'] = lambda self: dict(s.returned)
    else:
        bases.append(WithoutPreemptivity)
    bases += [WithoutPreallocations, WithoutTimeLag, WithoutTimeWindow]
    if s.cal:
        bases.append(DeterministicResourceAvailabilityChanges)
        d['_get_quantity_resource'] = lambda self, resource, time, **kw: s.avail[resource][time]
    else:
        bases.append(WithoutResourceAvailabilityChange)
        d['_get_original_quantity_resource'] = lambda self, resource, **kw: s.avail[resource][0]
    if s.cond:
        bases.append(WithConditionalTasks)
        d['_get_all_condition_items'] = lambda self: Cond
        d['_get_task_existence_conditions'] = lambda self: {t: list(v) for t, v in s.exist.items()}
        d['_get_task_on_completion_added_conditions'] = lambda self: {t: [DiscreteDistribution([(c, float(p)) for c, p in v.items()]) for v in q] for t, q in s.added.items()}
    else:
        bases.append(WithoutConditionalTasks)
    bases.append(VariableResourceConsumption if s.varying else ConstantResourceConsumption)
    if all(s.ren.values()):
        bases.append(RenewableOnly)
    else:
        bases.append(MixedRenewable)
        d['_get_resource_renewability'] = lambda self: dict(s.ren)
    if 1 in s.obj:
        bases += [WithModeCosts, WithResourceCosts]
        d['_get_mode_costs'] = lambda self: s.mcost
        d['_get_resource_cost_per_time_unit'] = lambda self: s.rcost
    else:
        bases += [WithoutModeCosts, WithoutResourceCosts]
    bases = bases[:1] + [b for b in bases[1:] if b not in bases[0].__mro__]     # the general characteristics are inherited already
    cls = type('SchedDom', tuple(extra_bases) + tuple(bases), d)
    dom = cls()
    dom.initialize_domain()
    return dom


class M:
    """Reference state."""
    __slots__ = ('t', 'st', 'mode', 'start', 'end', 'act', 'dur', 'units', 'paused', 'resumed', 'cond', 'used')

    def clone(self):
        m = M()
        for k in M.__slots__:
            v = getattr(self, k)
            if isinstance(v, dict):
                v = {a: (list(b) if isinstance(b, list) else set(b) if isinstance(b, set) else b) for a, b in v.items()}
            elif isinstance(v, set):
                v = set(v)
            setattr(m, k, v)
        return m


class Ref:
    def __init__(self, s):
        self.s = s
        self.pred = {t: {u for u in s.ids if t in s.succ[u]} for t in s.ids}

    def available(self, cond):
        return {t for t in self.s.ids if all(c in cond for c in self.s.exist.get(t, []))}

    def initial(self):
        m = M()
        m.t, m.cond = 0, set()
        m.st = {t: 'R' for t in self.available(set())}
        m.mode, m.start, m.end, m.act, m.dur, m.units, m.paused, m.resumed = {}, {}, {}, {}, {}, {}, {}, {}
        m.used = {r: 0 for r in self.s.types if not self.s.ren[r]}
        return m

    def cap(self, m):
        return {r: self.s.avail[r][m.t] for r in self.s.types + self.s.units}

    def need(self, m, task, mode, r):
        prof = self.s.modes[task][mode].get(r)
        if not prof:
            return 0
        a = m.act.get(task, 0)
        return prof[min(a, len(prof) - 1)] if self.s.varying else prof[0]

    def load(self, m):
        """Usage of every resource: ongoing tasks for renewable ones and units, history for the others."""
        u = {r: 0 for r in self.s.types + self.s.units}
        for t, x in m.st.items():
            if x == 'O':
                for r in self.s.types:
                    if self.s.ren[r]:
                        u[r] += self.need(m, t, m.mode[t], r)
                for w in m.units[t]:
                    u[w] += 1
        for r, v in m.used.items():
            u[r] += v
        return u

    def per_task(self, m, t):
        d = {r: self.need(m, t, m.mode[t], r) for r in self.s.types}
        d.update({w: 1 for w in m.units[t]})
        return {k: v for k, v in d.items() if v}

    def kept(self, t, r):
        return not self.s.ren[r] and not self.s.returned[t]

    def fits(self, m, task, mode, resume=False):
        cap, u = self.cap(m), self.load(m)
        return all(self.need(m, task, mode, r) <= cap[r] - u[r] for r in self.s.types if not (resume and self.kept(task, r)))

    def skilled(self, task, mode, units):
        ask = {k: v for k, v in self.s.tsk[task].get(mode, {}).items() if v > 0} if self.s.skills else {}
        return all(sum(self.s.unit_skills[w].get(k, 0) for w in units) >= v for k, v in ask.items())

    def units_free(self, m, units):
        cap, u = self.cap(m), self.load(m)
        return all(u[w] + 1 <= cap[w] for w in units)

    def starts(self, m):
        av = self.available(m.cond)
        return {(t, k) for t, x in m.st.items() if x == 'R' and all(m.st.get(p) == 'C' for p in self.pred[t] & av) for k in self.s.modes[t] if self.fits(m, t, k)}

    def pauses(self, m):
        return {t for t, x in m.st.items() if x == 'O' and self.s.preempt[t]}

    def resumes(self, m):
        av = self.available(m.cond)     # a predecessor whose condition is met while the task is paused has to be completed first
        return {t for t, x in m.st.items() if x == 'P' and all(m.st.get(p) == 'C' for p in self.pred[t] & av) and self.fits(m, t, m.mode[t], True)}

    def over(self, m):
        cap, u = self.cap(m), self.load(m)
        return any(u[r] > cap[r] for r in u)

    def done(self, m):
        return all(x == 'C' for x in m.st.values())

    def hopeless(self, m):
        cap, u = self.cap(m), self.load(m)
        return any(x == 'R' and all(any(self.need(m, t, k, r) > cap[r] - u[r] for r in self.s.types if not self.s.ren[r]) for k in self.s.modes[t]) for t, x in m.st.items())

    def terminal(self, m):
        return m.t > self.s.hz or self.done(m) or self.hopeless(m)

    def _complete(self, outs, tasks, when):
        """outs [(m, p)] -> completed, with condition draws."""
        res = []
        for m, p in outs:
            for t in tasks(m):
                m.st[t] = 'C'
                m.end[t] = when(m)
            res.append((m, p))
        return res

    def _draw(self, m, p, tasks):
        dists = [v for t in tasks for v in self.s.added.get(t, [])]
        out = []
        for comb in product(*[list(v.items()) for v in dists]):
            q, k = p, m.clone() if dists else m
            for c, pc in comb:
                k.cond.add(c)
                q *= pc
            for t in self.available(k.cond):
                k.st.setdefault(t, 'R')
            out.append((k, q))
        return out

    def step(self, m0, a, durations=None):
        """[(model, probability)] after action a; durations: restrict the drawn duration of a started task."""
        m = m0.clone()
        s = self.s
        if a.action == E.START:
            t, k = a.task, a.mode
            units = set(a.resource_unit_names or [])
            if not (self.fits(m, t, k) and self.units_free(m, units) and self.skilled(t, k, units)):
                return [(m, Fraction(1))]
            outs = []
            for d, p in (durations or s.durs[t][k]).items():
                d += m.t % 3 if getattr(s, 'tdep', False) else 0   # durations that depend on the starting date
                q = m.clone()
                q.st[t], q.mode[t], q.start[t], q.act[t], q.dur[t], q.units[t], q.paused[t], q.resumed[t] = 'O', k, q.t, 0, d, set(units), [], []
                for r in q.used:
                    q.used[r] += self.need(q, t, k, r)
                if d == 0:
                    q.st[t] = 'C'
                    q.end[t] = q.t
                    outs += self._draw(q, p, [t])
                else:
                    outs.append((q, p))
            return outs
        if a.action == E.PAUSE:
            t = a.task
            if s.returned[t] or not s.pre:
                for r in m.used:
                    m.used[r] -= self.need(m, t, m.mode[t], r)
            m.st[t] = 'P'
            m.paused[t].append(m.t)
            return [(m, Fraction(1))]
        if a.action == E.RESUME:
            t = a.task
            units = set(a.resource_unit_names or [])
            if not (self.fits(m, t, m.mode[t], True) and self.units_free(m, units) and self.skilled(t, m.mode[t], units)):
                return [(m, Fraction(1))]
            m.st[t] = 'O'
            m.units[t] = units
            m.resumed[t].append(m.t)
            if s.rtype[t] == ResumeType.Restart:
                m.act[t] = 0
            for r in m.used:
                if not self.kept(t, r):
                    m.used[r] += self.need(m, t, m.mode[t], r)
            return [(m, Fraction(1))]
        fin = []
        for t, x in list(m.st.items()):
            if x == 'O':
                m.act[t] += 1
                if m.act[t] >= m.dur[t]:
                    fin.append(t)
        for t in fin:
            m.st[t], m.end[t] = 'C', m.t + 1
        m.t += 1
        return self._draw(m, Fraction(1), fin)

    def proj(self, m):
        """Canonical content of a state, comparable with proj_real."""
        by = {x: frozenset(t for t, y in m.st.items() if y == x) for x in 'ROCP'}
        started = [t for t in m.st if m.st[t] != 'R']
        prog = {t: (Fraction(1) if m.st[t] == 'C' else Fraction(m.act[t], m.dur[t]) if m.dur[t] else Fraction(1)) for t in started}
        return (m.t, by['R'], by['O'], by['C'], by['P'],
                frozenset((t, round(float(prog[t]), 3)) for t in started),
                frozenset((t, m.mode[t]) for t in started),
                frozenset(self.cap(m).items()), frozenset(self.load(m).items()),
                frozenset((t, frozenset(self.per_task(m, t).items())) for t in by['O']),
                frozenset((t, m.start[t], m.end.get(t), m.dur[t], tuple(m.paused[t]), tuple(m.resumed[t])) for t in started),
                frozenset(m.cond))

    def proj_real(self, st):
        started = [t for t in self.s.ids if st.tasks_details[t].start is not None]
        return (st.t, frozenset(st.tasks_remaining), frozenset(st.tasks_ongoing), frozenset(st.tasks_complete), frozenset(st.tasks_paused),
                frozenset((t, round(float(p), 3)) for t, p in st.tasks_progress.items()),
                frozenset(st.tasks_mode.items()),
                frozenset(st.resource_availability.items()), frozenset(st.resource_used.items()),
                frozenset((t, frozenset((k, v) for k, v in d.items() if v)) for t, d in st.resource_used_for_task.items()),
                frozenset((t, st.tasks_details[t].start, st.tasks_details[t].end, st.tasks_details[t].sampled_duration,
                           tuple(st.tasks_details[t].paused), tuple(st.tasks_details[t].resumed)) for t in started),
                frozenset(st._current_conditions))

    def cost(self, m0, a, m1):
        c = 0.
        if 0 in self.s.obj:
            c += m1.t - m0.t
        if 1 in self.s.obj:
            if a.action == E.START:
                c += self.s.mcost[a.task][a.mode]
            u0, u1 = self.load(m0), self.load(m1)
            for r in u0:
                if self.s.ren[r]:
                    c += self.s.rcost[r] * u0[r] * (m1.t - m0.t)
                else:
                    c += u1[r] - u0[r]
        return c


def act(kind, task=None, mode=None, units=None):
    if kind == 'T':
        return SchedulingAction(task=None, action=E.TIME_PR, mode=None, time_progress=True)
    return SchedulingAction(task=task, action={'S': E.START, 'P': E.PAUSE, 'R': E.RESUME}[kind], mode=mode, time_progress=False, resource_unit_names=units)

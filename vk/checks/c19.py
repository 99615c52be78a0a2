"""C19 scheduling simulation: every state reached is the one an independent replay of the action log derives from the problem data."""
import random
from collections import Counter
from fractions import Fraction

from skdecide import EnvironmentOutcome
from skdecide.builders.scheduling.scheduling_domains import SchedulingActionSpaceWithResourceUnit
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as E
from vk import sched
from vk.sched import act

RULE = 'random scheduling problems (modes, precedence, renewable/non-renewable/calendar/unit resources, skills, preemption, conditions, costs; deterministic, uncertain, simulated) and random action histories; non-trivial = at least 3 tasks and 10 transitions'
REQUIRED = {'transitions': 20000, 'starts': 3000, 'times': 5000, 'completions': 2000, 'zero_duration': 200, 'pauses': 300, 'resumes': 150, 'refused': 50, 'conditions': 200, 'late_tasks': 60, 'dated_durations': 60,
            'goals': 400, 'dead_ends': 20, 'horizons': 20, 'uncertain_branches': 1500, 'actions_compared': 10000, 'over': 100, 'skilled_starts': 300, 'copies': 1000, 'commuted': 100, 'costs': 3000, 'multi_mode': 300}
ASSUMPTIONS = ['actions that do not belong to the applicable ones are only tried when refused for lack of resources or skills', 'in-place simulation is compared on states, not on costs', 'durations of simulated domains are drawn once per domain (the library stores them)']


def key(a):
    return (a.task, a.action, a.mode if a.action == E.START else None, a.time_progress)


def expected(ref, m):
    acts = set()
    over = ref.over(m)
    if not over:
        acts |= {(t, E.START, k, False) for t, k in ref.starts(m)}
        acts |= {(t, E.RESUME, None, False) for t in ref.resumes(m)}
    acts |= {(t, E.PAUSE, None, False) for t in ref.pauses(m)}
    acts.add((None, E.TIME_PR, None, True))
    return acts


def compare_actions(run, dom, ref, m, st, s):
    space = dom.get_applicable_actions(st)
    exp = expected(ref, m)
    if ref.over(m):
        run.hit('over')
    if s.skills:
        for _ in range(6):
            a = space.sample()
            run.hit('actions_compared')
            run.check(key(a) in exp, 'sampled-action-not-applicable', lambda: f'{a} {exp} {s}')
            if a.action in (E.START, E.RESUME):
                u = a.resource_unit_names or []
                run.check(ref.units_free(m, u) and ref.skilled(a.task, m.mode.get(a.task, a.mode) if a.action == E.RESUME else a.mode, u) and len(set(u)) == len(u), 'sampled-units', lambda: f'{a} {s}')
        sp = SchedulingActionSpaceWithResourceUnit(domain=dom, state=st)
        got = Counter((key(a), frozenset(a.resource_unit_names or [])) for a in sp.get_elements())
        want = Counter()
        for e in exp:
            if e[1] in (E.START, E.RESUME):
                mode = e[2] if e[1] == E.START else m.mode[e[0]]
                if not {k for k, v in s.tsk[e[0]].get(mode, {}).items() if v > 0}:
                    want[(e, frozenset())] += 1
                else:
                    for w in s.units:
                        if ref.skilled(e[0], mode, [w]) and ref.units_free(m, [w]):
                            want[(e, frozenset([w]))] += 1
            else:
                want[(e, frozenset())] += 1
        run.check(got == want, 'unit-action-space', lambda: f'extra {got - want} missing {want - got} {s}')
        return
    els = list(space.get_elements())
    got = Counter(key(a) for a in els)
    run.hit('actions_compared', len(got))
    run.check(set(got) == exp and max(got.values()) == 1, 'applicable-actions', lambda: f'extra {set(got) - exp} missing {exp - set(got)} {s} {st}')
    a = space.sample()
    run.check(key(a) in exp, 'sampled-action-not-applicable')
    run.check(all(dom.is_applicable_action(a, st) for a in els[:3]), 'is-applicable-action')
    bad = act('S', s.ids[0], 77)
    run.check(not dom.is_applicable_action(bad, st), 'contains-foreign-action')


def choose(rng, run, dom, ref, m, st, s, style):
    exp = sorted(expected(ref, m), key=str)
    starts = [e for e in exp if e[1] == E.START]
    other = [e for e in exp if e[1] in (E.PAUSE, E.RESUME)]
    if rng.random() < .04 and not ref.over(m):      # refused for lack of resources or skills
        av = ref.available(m.cond)
        cand = [('S', t, k) for t, x in sorted(m.st.items()) if x == 'R' and all(m.st.get(p) == 'C' for p in ref.pred[t] & av) for k in s.modes[t] if not ref.fits(m, t, k) or s.skills and not ref.skilled(t, k, [])]
        cand += [('R', t, m.mode[t]) for t, x in sorted(m.st.items()) if x == 'P' and (not ref.fits(m, t, m.mode[t], True) or s.skills and not ref.skilled(t, m.mode[t], []))]
        if cand:
            run.hit('refused')
            return act(*rng.choice(cand))
    x = rng.random()
    pool = starts if starts and x < style[0] else other if other and x < style[1] else None
    if pool is None:
        return act('T')
    e = rng.choice(pool)
    units = None
    if s.skills and e[1] != E.PAUSE:
        mode = e[2] if e[1] == E.START else m.mode[e[0]]
        free = [w for w in s.units if ref.units_free(m, [w])]
        rng.shuffle(free)
        units = []
        for w in free:
            if ref.skilled(e[0], mode, units):
                break
            units.append(w)
        if not ref.skilled(e[0], mode, units):
            return act('T')
        units = set(units) if rng.random() < .5 else list(units)
        if not units and rng.random() < .5:
            units = None
        run.hit('skilled_starts')
    if e[1] == E.START:
        return act('S', e[0], e[2], units)
    if e[1] == E.PAUSE:
        return act('P', e[0])
    return act('R', e[0], rng.choice([None, m.mode[e[0]]]), units)


def drive(run, rng, s, steps=70):
    dom = sched.build(s)
    ref = sched.Ref(s)
    m = ref.initial()
    st = dom.reset()
    ctx = lambda: f'{s}'
    run.check(ref.proj_real(st) == ref.proj(m), 'initial-state', lambda: f'{st} {s}')
    init = dom.get_initial_state()
    run.check(init == st and hash(init) == hash(st), 'initial-state-differs', ctx)
    style = rng.choice([(.9, .95), (.6, .8), (.4, .7), (1., 1.), (.95, 1.)])
    n = 0
    log = []
    durs = {}
    for _ in range(steps):
        compare_actions(run, dom, ref, m, st, s)
        a = choose(rng, run, dom, ref, m, st, s, style)
        log.append(str(key(a)))
        snap = ref.proj_real(st)
        frozen = st.copy()
        run.hit('copies')
        run.check(frozen == st and hash(frozen) == hash(st), 'copy-not-equal', ctx)
        succ = ref.step(m, a)
        want = {}
        for mm, p in succ:
            want.setdefault(ref.proj(mm), [mm, Fraction(0)])[1] += p
        d = lambda: f'{a} log {log} {s}'
        nxt = None
        if s.kind == 'det':
            nxt = dom.get_next_state(st, a)
            run.check(ref.proj_real(nxt) in want, 'next-state', lambda: f'{explain(ref, nxt, want)} {d()}', abort=True)
        if s.kind in ('unc', 'det'):
            got = {}
            for x, p in dom.get_next_state_distribution(st, a).get_values():
                got.setdefault(ref.proj_real(x), [x, 0.])[1] += p
            if len(want) > 1:
                run.hit('uncertain_branches', len(want))
            run.check(set(got) == set(want), 'next-states', lambda: f'{len(got)} {len(want)} {[explain(ref, g[0], want) for k, g in got.items() if k not in want][:2]} missing {[str(w) for w in want if w not in got][:2]} {d()}', abort=True)
            run.check(all(abs(got[k][1] - float(want[k][1])) < 1e-9 for k in want), 'outcome-probabilities', lambda: f'{[(got[k][1], want[k][1]) for k in want]} {d()}')
        out = dom.step(a)
        run.check(ref.proj_real(st) == snap and st == frozen, 'state-modified-by-transition', d, abort=True)
        if isinstance(out, EnvironmentOutcome):
            obs, val, term = out.observation, out.value, out.termination
        p = ref.proj_real(obs)
        if s.kind == 'sim' and a.action == E.START and obs.tasks_details[a.task].start == st.t and a.task not in m.start:
            dd = obs.tasks_details[a.task].sampled_duration
            run.check(dd in s.durs[a.task][a.mode], 'duration-not-drawn-from-model', d)
            run.check(dd == durs.setdefault((a.task, a.mode), dd), 'stored-duration-changed', d)
        run.check(p in want, 'step-outcome', lambda: f'{explain(ref, obs, want)} {d()}', abort=True)
        mm = want[p][0]
        if s.kind == 'det':
            run.check(obs == nxt and hash(obs) == hash(nxt), 'equal-states-differ', d)
        run.hit('transitions')
        refused = a.action in (E.START, E.RESUME) and ref.proj(mm) == ref.proj(m)
        if not refused:
            run.hit('costs')
            c = ref.cost(m, a, mm)
            run.check(abs(val.cost - c) < 1e-9, 'transition-cost', lambda: f'{val.cost} {c} {d()}')
            if s.kind != 'sim':
                run.check(abs(dom.get_transition_value(st, a, obs).cost - c) < 1e-9, 'transition-value', d)
        else:
            run.check(a.action == E.RESUME or True, '')
        done, ter = ref.done(mm), ref.terminal(mm)
        run.check(dom.is_goal(obs) == done, 'goal', lambda: f'{dom.is_goal(obs)} {obs} {d()}')
        run.check(bool(term) == (done or ter), 'termination', lambda: f'{term} {done} {ter} {obs} {d()}')
        if s.kind != 'sim':
            run.check(bool(dom.is_terminal(obs)) == ter, 'is-terminal', d)
        run.hit({E.START: 'starts', E.PAUSE: 'pauses', E.RESUME: 'resumes', E.TIME_PR: 'times'}[a.action])
        nc = sum(x == 'C' for x in mm.st.values()) - sum(x == 'C' for x in m.st.values())
        run.hit('completions', nc)
        if a.action == E.START and nc:
            run.hit('zero_duration')
        if a.action == E.START and len(s.modes[a.task]) > 1:
            run.hit('multi_mode')
        run.hit('conditions', len(mm.cond - m.cond))
        run.hit('late_tasks', len(set(mm.st) - set(m.st)))
        m, st = mm, obs
        n += 1
        if done:
            run.hit('goals')
            break
        if ter:
            run.hit('horizons' if m.t > s.hz else 'dead_ends')
            break
        if m.t > s.H - 5:
            break
    run.case((str(s)[:300], log[:8]), len(s.ids) >= 3 and n >= 10)
    return dom, ref, m, st


def explain(ref, x, want):
    g = ref.proj_real(x)
    names = 't remaining ongoing complete paused progress mode avail used per_task details cond'.split()
    w = min(want, key=lambda w: sum(a != b for a, b in zip(w, g)))
    return [(n, 'got', a, 'want', b) for n, a, b in zip(names, g, w) if a != b]


def g_det(run, rng):
    drive(run, rng, sched.gen(rng, kind='det'))


def g_unc(run, rng):
    dated = rng.random() < .3
    s = sched.gen(rng, kind='unc', **({'varying': False} if dated else {}))
    if dated:
        s.style, s.tdep = 'multi', True
        run.hit('dated_durations')
    drive(run, rng, s)


def g_sim(run, rng):
    drive(run, rng, sched.gen(rng, kind='sim'))


def g_pre(run, rng):
    drive(run, rng, sched.gen(rng, preempt=True), steps=90)


def g_skill(run, rng):
    drive(run, rng, sched.gen(rng, skills=True))


def g_cond(run, rng):
    drive(run, rng, sched.gen(rng, kind=rng.choice(['unc', 'sim']), cond=True, nmax=7))


def g_inplace(run, rng):
    """In-place simulation visits the same states; commuting actions lead to equal states."""
    s = sched.gen(rng, kind='det')
    dom, ip, ref = sched.build(s), sched.build(s), sched.Ref(s)
    ip.set_inplace_environment(True)
    m = ref.initial()
    a_st, b_st = dom.get_initial_state(), ip.get_initial_state()
    style = (.7, .85)
    n = 0
    for _ in range(60):
        a = choose(rng, run, dom, ref, m, a_st, s, style)
        # commuting starts
        st2 = sorted(ref.starts(m))
        if len(st2) > 1 and not ref.over(m):
            (t, k), (u, q) = rng.sample(st2, 2)
            if t != u and ref.proj(ref.step(ref.step(m, act('S', t, k))[0][0], act('S', u, q))[0][0]) == ref.proj(ref.step(ref.step(m, act('S', u, q))[0][0], act('S', t, k))[0][0]):
                x = dom.get_next_state(dom.get_next_state(a_st, act('S', t, k)), act('S', u, q))
                y = dom.get_next_state(dom.get_next_state(a_st, act('S', u, q)), act('S', t, k))
                run.hit('commuted')
                run.check(x == y and hash(x) == hash(y), 'commuted-states-differ', lambda: f'{x} {y}')
                z = dom.get_next_state(x, act('T'))
                run.check(z != x, 'different-states-equal', '')
        m = ref.step(m, a)[0][0]
        a_st = dom.get_next_state(a_st, a)
        b_st = ip.get_next_state(b_st, a)
        run.hit('transitions')
        run.check(ref.proj_real(b_st) == ref.proj(m) == ref.proj_real(a_st), 'inplace-state', lambda: f'{a} {s}', abort=True)
        n += 1
        if ref.terminal(m):
            break
    run.case((str(s)[:300], n), n >= 10)


def g_long(run, rng):
    """tasks of many time steps end at their dates too"""
    s = sched.gen(rng, kind=rng.choice(['det', 'det', 'sim']), nmax=2, preempt=False, calendar=False, varying=False, cond=False, costs=False)
    longest = rng.choice([997, 9999, 10000, 10001, 12345, rng.randint(1000, 30000)]) if run.tier != 'quick' else rng.choice([997, 9999, 10000, 10007, 11111])
    for t in s.ids:
        for m in s.durs[t]:
            s.durs[t] = {**s.durs[t], m: {rng.choice([longest, longest, rng.randint(2, longest)]): 1}}
    s.H = 2 * longest + 10
    for r in s.avail:
        s.avail[r] = [max(s.avail[r] + [1])] * (s.H + 3)
    dom = sched.build(s)
    dom.set_inplace_environment(True)
    st = dom.get_initial_state()
    preds = {t: {i for i in s.ids if t in s.succ[i]} for t in s.ids}
    start, due = {}, {}
    while st.t <= s.H and (len(due) < len(s.ids) or st.t < max(due.values())):
        for t in sorted(s.ids):
            if t not in start and preds[t] <= set(due) and all(due[i] <= st.t for i in preds[t]):
                ok = [a for a in (act('S', t, m) for m in sorted(s.modes[t])) if dom.check_if_action_can_be_started(st, a)[0]]
                if ok:
                    a = rng.choice(ok)
                    st = dom.sample(st, a).observation if s.kind == 'sim' else dom.get_next_state(st, a)
                    start[t], due[t] = st.t, st.t + next(iter(s.durs[t][a.mode]))
        if not start:
            return
        st = dom.sample(st, act('T')).observation if s.kind == 'sim' else dom.get_next_state(st, act('T'))
        run.hit('long_steps')
        run.check(st.tasks_complete == {t for t in due if due[t] <= st.t} and st.tasks_ongoing == {t for t in due if due[t] > st.t}, 'long-task-end', lambda: f't={st.t} complete {st.tasks_complete} ongoing {st.tasks_ongoing} due {due}', abort=True)
    run.check(all(st.tasks_details[t].end == due[t] and st.tasks_details[t].start == start[t] for t in st.tasks_complete), 'long-task-dates', lambda: f'{due}')
    run.case((str(start), str(due)), len(start) > 1)


GROUPS = [
    ('long', g_long, 5, 60),
    ('det', g_det, 500, 6000),
    ('uncertain', g_unc, 400, 5000),
    ('simulated', g_sim, 200, 3000),
    ('preemptive', g_pre, 300, 4000),
    ('skills', g_skill, 250, 3000),
    ('conditional', g_cond, 300, 4000),
    ('inplace', g_inplace, 150, 2000),
]

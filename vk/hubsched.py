"""Driving the hub scheduling domains with plain project data (shared by the checks of conversions and policies)."""
from vk import dostubs, rcpspgen as G
from vk.dostubs import quiet

dostubs.install()
with dostubs.empty_data_dirs(), quiet():
    from skdecide.hub.domain.rcpsp import rcpsp_sk as H
    from skdecide.hub.solver.do_solver import sk_to_do_binding as B
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum as A


def project(rng, kind=None, nmax=7, overload=False, slack=True, **kw):
    """project data whose horizon holds every serial schedule (unless overloaded); calendars end with full capacity"""
    kind = kind or rng.choice(['single', 'single', 'multi', 'multi', 'calendar', 'mcalendar'])
    p = G.gen(rng, n=rng.randint(1, nmax), multi=kind in ('multi', 'mcalendar'), calendar='calendar' in kind, tight=False, overload=overload, **kw)
    for ms in p.modes.values():                 # an instantaneous task holds nothing in a schedule, but needs room to be started in a simulation
        for m in ms.values():
            if m['duration'] == 0:
                for r in p.res:
                    if r not in p.nonren:
                        m[r] = 0
    tot = sum(max(m['duration'] for m in p.modes[j].values()) for j in p.modes)
    p.mult = 1
    if p.calendar:
        for r in p.res:
            top = max(list(p.res[r]) + ([] if r in p.nonren else [x[r] for j in p.modes.values() for x in j.values()]))
            p.res[r] = list(p.res[r]) + [top] * (tot + 3)
        p.horizon = min(len(v) for v in p.res.values()) - rng.choice([0, 1, 2])     # calendars may end at the horizon
    else:
        p.horizon = max(1, tot + (rng.randint(0, 3) if slack else 0))
    return p


def domain(p, rng=None, cls=None):
    """the hub domain of a project"""
    single = not p.multi
    if cls is None:
        cls = (H.RCPSPCalendar if single and (rng is None or rng.random() < .5) else H.MRCPSPCalendar) if p.calendar else (H.RCPSP if single and (rng is None or rng.random() < .6) else H.MRCPSP)
    return cls(resource_names=list(p.res), task_ids=sorted(p.modes), tasks_mode={j: {m: dict(v) for m, v in ms.items()} for j, ms in p.modes.items()}, successors={j: list(v) for j, v in p.succ.items()},
               max_horizon=p.horizon, resource_availability={r: list(v) if p.calendar else v for r, v in p.res.items()}, resource_renewable={r: r not in p.nonren for r in p.res})


def start(j, m, units=None):
    return SchedulingAction(task=j, action=A.START, mode=m, time_progress=False, resource_unit_names=units)


def wait():
    return SchedulingAction(task=None, action=A.TIME_PR, mode=None, time_progress=True)


def akey(a):
    return (a.task, a.mode) if a.action == A.START else a.action.name


def topological(p):
    """tasks sorted so that predecessors come first"""
    preds = p.preds()
    out = []
    while len(out) < len(p.modes):
        out.append(next(j for j in sorted(p.modes) if j not in out and preds[j] <= set(out)))
    return out


def schedule_of(state):
    return {j: (d.start, d.end) for j, d in state.tasks_details.items() if d.start is not None}


def actual(p, sched, modes):
    """the project in which the realised durations are the durations: for judging schedules of uncertain projects"""
    md = {j: {m: dict(v) for m, v in ms.items()} for j, ms in p.modes.items()}
    for j, (s, e) in sched.items():
        md[j][G.mode_of(p, modes, j)]['duration'] = e - s
    return G.P(p.res, p.nonren, md, p.succ, p.horizon, p.mult, p.calendar)

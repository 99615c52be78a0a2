"""C06 rollouts: the protocol between solver and domain, recorded at both boundaries."""
import contextlib
import json
import os
import shutil
import tempfile

from skdecide import Domain, Solver, Memory, TransitionOutcome, TransitionValue, DiscreteDistribution, ImplicitSpace
from skdecide.builders.domain import *
from skdecide.builders.solver import *
from skdecide.hub.space.gym import ListSpace
from skdecide.utils import rollout, rollout_episode

RULE = 'random domains (memory kind, single/multi agent, termination), random policies or none, random episode/step limits and starting memories; non-trivial = at least 2 steps'
REQUIRED = {'events': 2000, 'episodes': 300, 'saved_runs': 10, 'random_walks': 50, 'from_memory': 50, 'episode_History': 50, 'episode_FiniteHistory': 50}
ASSUMPTIONS = ['wall-clock frame-rate limiting is not checked']


def make(run, rng, full=False, single=False):
    multi = (not single) and rng.random() < .3
    mem = 'Markovian' if full else rng.choice(['Markovian', 'FiniteHistory', 'History'])
    n = rng.randint(2, 6)
    agents = ['a', 'b'][:rng.randint(1, 2)]
    wrap = (lambda f: {g: f(g) for g in agents}) if multi else (lambda f: f(None))
    log = []
    app = {(s, g): rng.sample(range(4), rng.randint(1, 3)) for s in range(n) for g in agents + [None]}
    term = {s for s in range(n) if rng.random() < .15}
    last = lambda m: m[-1] if isinstance(m, Memory) else m
    init = rng.randrange(n)
    render = rng.random() < .5
    goal = rng.random() < .5
    fobs = full or (not multi and rng.random() < .5)

    def step(self, memory, action):
        s = (last(memory) * 3 + sum(action.values() if multi else [action]) + rng.randint(0, 1)) % n
        log.append(('step', list(memory) if isinstance(memory, Memory) else memory, action, s, self.uid))
        return TransitionOutcome(s, wrap(lambda g: TransitionValue(cost=len(log))), s in term)
    obs = (lambda s, a: s) if fobs else (lambda s, a: wrap(lambda g: ('o', s, a if a is None else str(a))))
    ns = {'_state_sample': step, '_state_reset': lambda self: (log.append(('reset',)), init)[1], '_get_memory_maxlen_': lambda self: 3,
          '_get_applicable_actions_from': lambda self, m: wrap(lambda g: ListSpace(app[last(m), g])),
          '_get_action_space_': lambda self: wrap(lambda g: ListSpace(list(range(4)))),
          '_render_from': lambda self, m, **k: log.append(('render', last(m))),
          '_get_goals_': lambda self: wrap(lambda g: ImplicitSpace(lambda o: True))}
    if mem == 'Markovian':
        del ns['_get_memory_maxlen_']
    if not fobs:
        ns['_get_observation'] = lambda self, s, a=None: obs(s, a)
    bases = [Domain, MultiAgent if multi else SingleAgent, Sequential, Simulation, Actions, Initializable, globals()[mem], FullyObservable if fobs else TransformedObservable, PositiveCosts]
    if render:
        bases.append(Renderable)
    if goal:
        bases.append(Goals)
    dom = type('Dom', tuple(bases), ns)()
    dom.uid = 1
    return dom, dict(multi=multi, mem=mem, n=n, agents=agents, wrap=wrap, log=log, app=app, term=term, obs=obs, init=init, last=last, render=render, goal=goal, fobs=fobs)


def policy(run, rng, S):
    log, wrap = S['log'], S['wrap']

    class Pol(Policies):
        T_domain = Domain
        def reset(self): log.append(('solver-reset',))
        def sample_action(self, observation):
            a = wrap(lambda g: rng.randrange(4))
            log.append(('act', observation, a))
            return a
        def is_policy_defined_for(self, o): return True
    return Pol()


def monitor(run, S, episodes, max_steps, have_solver, do_render, start_mem, from_action, mode, who):
    """online-style checker of the event log: returns per-episode traces"""
    log = S['log']
    i = 0
    traces = []
    run.hit('events', len(log))

    def peek():
        return log[i] if i < len(log) else ('end',)

    def rendered(i):
        # every visited state is shown when asked for (and possible), no state is shown otherwise
        n = 0
        while i < len(log) and log[i][0] == 'render' and n == 0:
            run.check(do_render and S['render'] and log[i][1] == hist[-1], f'{who}:render', lambda: (log[i], hist[-1]))
            i += 1
            n += 1
        run.check(n > 0 or not (do_render and S['render']), f'{who}:state-not-rendered', lambda: (i, log[max(0, i - 3):i + 3]))
        return i
    for ep in range(episodes):
        run.hit('episodes')
        if have_solver:
            if not run.check(peek()[0] == 'solver-reset', f'{who}:solver-not-reset', (ep, peek(), log[:6])):
                return None
            i += 1
        if start_mem is None:
            if not run.check(peek()[0] == 'reset', f'{who}:domain-not-reset', (ep, peek(), log[max(0, i - 3):i + 3])):
                return None
            i += 1
            hist = [S['init']]
            o = S['obs'](S['init'], None)
        else:
            hist = list(start_mem)
            o = S['obs'](hist[-1], from_action)
        tr = {'obs': [o], 'act': [], 'val': [], 'states': [hist[-1]]}
        step = 0
        done = False
        while True:
            if done or (max_steps is not None and step >= max_steps):
                break
            i = rendered(i)
            if have_solver:
                if not run.check(peek()[0] == 'act', f'{who}:stops-early-or-skips-solver', lambda: (ep, step, max_steps, peek(), log[max(0, i - 4):i + 3])):
                    return None
                run.check(peek()[1] == o, f'{who}:solver-sees-last-observation', lambda: (peek(), o))
                a = peek()[2]
                i += 1
            e = peek()
            if not run.check(e[0] == 'step', f'{who}:no-step', lambda: (ep, step, e)):
                return None
            i += 1
            if have_solver:
                run.check(e[2] == a, f'{who}:applied-action', lambda: (a, e))
            else:
                a = e[2]
                ok = all(a[g] in S['app'][hist[-1], g] for g in S['agents']) and set(a) == set(S['agents']) if S['multi'] else a in S['app'][hist[-1], None]
                run.check(ok, f'{who}:random-walk-not-applicable', lambda: (a, hist[-1], S['app']))
            want = hist if S['mem'] == 'History' else hist[-3:] if S['mem'] == 'FiniteHistory' else hist[-1]
            run.check(e[1] == want, f'{who}:step-memory', lambda: (e, want))
            hist = hist + [e[3]]
            o = S['obs'](e[3], a)
            tr['obs'].append(o)
            tr['act'].append(a)
            tr['states'].append(e[3])
            done = e[3] in S['term']
            step += 1
        i = rendered(i)                          # the final state of the episode
        traces.append(tr)
    run.check(i == len(log), f'{who}:extra-events', lambda: log[i:i + 4])
    return traces


def values_of(S):
    return [k + 1 for k, e in enumerate(S['log']) if e[0] == 'step']


def run_rollout(run, rng):
    dom, S = make(run, rng)
    have = rng.random() < .75
    episodes = rng.choice([1, 1, 2, 3, 4])
    max_steps = rng.choice([1, 2, 5, 9, 15, 0])
    if S['term'] and S['init'] not in S['term'] and rng.random() < .2:
        max_steps = 60
    start, fa = None, None
    if rng.random() < .35:
        start = [rng.randrange(S['n']) for _ in range(rng.randint(1, 3))]
        fa = S['wrap'](lambda g: rng.randrange(4)) if rng.random() < .5 else None
        run.hit('from_memory')
    arg = None if start is None else (start[-1] if S['mem'] == 'Markovian' else Memory(start))
    if start is not None and S['mem'] == 'Markovian':
        start = start[-1:]
    do_render = rng.random() < .5
    if not have:
        run.hit('random_walks')
    rollout(dom, policy(run, rng, S) if have else None, from_memory=arg, from_action=fa, num_episodes=episodes, max_steps=max_steps, render=do_render,
            verbose=rng.random() < .3)
    tr = monitor(run, S, episodes, max_steps, have, do_render, start, fa, 'x', 'rollout')
    run.case((S['mem'], S['multi'], have, episodes, max_steps, start, len(S['log'])), len(S['log']) > 3)
    if start is not None and arg is not None and S['mem'] != 'Markovian':
        run.check(list(arg) == start, 'rollout:modifies-from_memory', (list(arg), start))


def run_episode(run, rng):
    """rollout_episode: returns the trace of one episode"""
    dom, S = make(run, rng)
    have = rng.random() < .75
    max_steps = rng.choice([1, 2, 5, 9, 15])
    start, fa = None, None
    if rng.random() < .4:
        start = [rng.randrange(S['n']) for _ in range(rng.randint(1, 3))]
        fa = S['wrap'](lambda g: rng.randrange(4)) if rng.random() < .5 else None
        run.hit('from_memory')
    arg = None if start is None else (start[-1] if S['mem'] == 'Markovian' else Memory(start))
    if start is not None and S['mem'] == 'Markovian':
        start = start[-1:]
    do_render = rng.random() < .4
    if not have:
        run.hit('random_walks')
    res = rollout_episode(dom, policy(run, rng, S) if have else None, from_memory=arg, from_action=fa, max_steps=max_steps, render=do_render, verbose=rng.random() < .2)
    tr = monitor(run, S, 1, max_steps, have, do_render, start, fa, 'x', 'episode')
    if tr:
        o, a, v = res
        run.check(list(o) == tr[0]['obs'], 'episode:observations', lambda: (o, tr[0]['obs']))
        run.check(list(a) == tr[0]['act'], 'episode:actions', lambda: (a, tr[0]['act']))
        costs = [({g: x[g].cost for g in x} if S['multi'] else x.cost) for x in v]
        run.check(costs == [S['wrap'](lambda g: c) for c in values_of(S)], 'episode:values', lambda: (costs, values_of(S)))
        run.check(len(o) == len(a) + 1 == len(v) + 1, 'episode:lengths')
    run.hit('episode_' + S['mem'])
    run.case((have, max_steps, start, len(S['log'])), len(S['log']) > 3)


def run_saved(run, rng):
    dom, S = make(run, rng, full=True, single=True)
    d = tempfile.mkdtemp(prefix='vk-roll-')
    try:
        target = os.path.join(d, 'res') if rng.random() < .5 else d
        ms = rng.randint(1, 8)
        r = rollout(dom, policy(run, rng, S), num_episodes=1, max_steps=ms, render=False, verbose=False, save_result_directory=target)
        tr = monitor(run, S, 1, ms, True, False, None, None, 'x', 'saved')
        run.check(os.path.dirname(r) == target and os.path.isdir(r), 'saved:directory', r, abort=True)
        acts = json.load(open(os.path.join(r, 'actions.json')))
        obs = json.load(open(os.path.join(r, 'observations.json')))
        trs = json.load(open(os.path.join(r, 'transitions.json')))
        run.hit('saved_runs')
        t = tr[0]
        n = len(t['act'])
        run.check(acts == {str(k + 1): a for k, a in enumerate(t['act'])}, 'saved:actions', lambda: (acts, t['act']))
        run.check(obs == {str(k): a for k, a in enumerate(t['obs'])}, 'saved:observations', lambda: (obs, t['obs']))
        vals = values_of(S)
        run.check(trs == {str(k + 1): {'s': t['obs'][k], 'a': t['act'][k], 'cost': vals[k], "s'": t['obs'][k + 1]} for k in range(n)}, 'saved:transitions', lambda: (trs, t))
        run.case((ms, n, tuple(t['act'])), n > 1)
        # several episodes: all of them must be run
        if rng.random() < .3:
            dom, S = make(run, rng, full=True, single=True)
            r2 = rollout(dom, policy(run, rng, S), num_episodes=2, max_steps=ms, render=False, verbose=False, save_result_directory=os.path.join(d, 'two'))
            run.check(len(os.listdir(os.path.join(d, 'two'))) == 2 and os.path.isdir(r2), 'saved:one-directory-per-episode', r2)
            run.hit('saved_multi')
            t2 = monitor(run, S, 2, ms, True, False, None, None, 'x', 'saved2')
            got = []
            for x in os.listdir(os.path.join(d, 'two')):
                a, o = (json.load(open(os.path.join(d, 'two', x, f + '.json'))) for f in ('actions', 'observations'))
                got.append(([a[str(k + 1)] for k in range(len(a))], [o[str(k)] for k in range(len(o))]))
            if t2:
                run.check(sorted(got) == sorted((t['act'], t['obs']) for t in t2), 'saved:every-episode-in-its-own-files', lambda: (got, t2))
            run.check(sum(1 for e in S['log'] if e[0] == 'reset') == 2, 'saved:only-first-episode-run', S['log'][:5])
    finally:
        shutil.rmtree(d, ignore_errors=True)


GROUPS = [('rollout', run_rollout, 1200, 12000), ('episode', run_episode, 500, 5000), ('saved', run_saved, 60, 300)]

"""C36 parallel C++ solvers: the real headers with ParallelExecution on real threads under ThreadSanitizer, with injected delays; answers judged as for the sequential solvers."""
import os

from vk import cppdrv
from vk.cppgraphs import *
from vk.checks import c12, c13, c14, c15

RULE = ('random graphs, shortest-path problems and acyclic domains, 2 to 6 threads or parallel domains, delays injected at every domain call; '
        'non-trivial = as for the sequential solver of the same case')
REQUIRED = {'parallel_loops': 2000, 'parallel_calls': 5000, 'overlapping_calls': 1500, 'optimal_plans': 40, 'aostar_solved': 40, 'ilaostar_solved': 40, 'iw_plans': 40, 'bfws_plans': 40, 'lrtdp_bounded': 40,
            'riw_bounded': 100, 'mcts_steps': 60, 'mcts_best': 10, 'env_runs': 20, 'processes': 300}
ASSUMPTIONS = ['the loops are executed by real threads through a stand-in of the parallel for_each of the standard library', 'the domain of the harness is itself thread-safe', 'the sequential assumptions of C12 to C15']
NAMES = ['ASTAR', 'AOSTAR', 'ILAOSTAR', 'LRTDP', 'IW', 'BFWS', 'RIW', 'MCTS']
MODULE = {'ASTAR': c12, 'AOSTAR': c13, 'ILAOSTAR': c13, 'LRTDP': c13, 'IW': c14, 'BFWS': c14, 'RIW': c15, 'MCTS': c15}


def setup(tier):
    cppdrv.ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1'
    for n, b in cppdrv.build(NAMES, flags=['-fsanitize=thread', '-DVK_PAR'], extra_inc=[os.path.join(cppdrv.HERE, 'incpar')], tag='_par').items():
        MODULE[n].BIN[n] = b


def parallel(f):
    def group(run, rng):
        cppdrv.PAR = {'threads': rng.choice([2, 3, 4, 6]), 'capacity': rng.choice([2, 3, 4, 6]), 'jitter': rng.choice([0, 50, 200, 2000])}
        f(run, rng)
    return group




GROUPS = [('astar', parallel(c12.astar), 150 * 4, 2000 * 4, None), ('aostar', parallel(c13.aostar), 120 * 4, 1500 * 4, None), ('ilaostar', parallel(c13.ilaostar), 120 * 4, 1500 * 4, None), ('lrtdp', parallel(c13.lrtdp), 120 * 4, 1500 * 4, None),
          ('iw', parallel(c14.iw), 150 * 4, 1500 * 4, None), ('bfws', parallel(c14.bfws), 150 * 4, 1500 * 4, None), ('riw', parallel(c15.riw), 120 * 4, 1500 * 4, None), ('riw_any', parallel(c15.riw_any), 80 * 4, 1000 * 4, None),
          ('mcts', parallel(c15.mcts), 150 * 4, 2000 * 4, None), ('mcts_any', parallel(c15.mcts_any), 80 * 4, 1000 * 4, None)]

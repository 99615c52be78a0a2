RM = 'runtime monitoring: reference-model oracle over recorded executions'

prop('C01', 'Autocast preserves values between domain and solver modelling levels',
     'When a domain and a solver are declared at different modelling levels (single or multi agent, sequential or parallel events, state or history memory), every argument a caller passes at its level reaches the other side as exactly the same value re-expressed at that side\'s level, and every result (outcomes, spaces per agent, distributions with their probabilities, constraints) comes back re-expressed at the caller\'s level. Nothing is lost, duplicated, reordered or re-wrapped, whatever the payload looks like, whether arguments are positional, by keyword or left out, and other instances of the same class are not affected. A solver obtained through the domain\'s solve or load entry point sees domains at its own level and answers at the domain\'s level.',
     ['inputs', 'configurations'], 'all pairs of modelling levels, all castable operations of domains and solvers, all payload values',
     'test_autocast.py casts a handful of values through two helper functions at one pair of levels; the guarantee ranges over every level pair, every operation and arbitrary nested payloads.',
     ['skdecide/core.py', 'skdecide/domains.py', 'skdecide/solvers.py', 'skdecide/builders/domain', 'skdecide/builders/solver'],
     [('type-hint driven casting', 'skdecide/core.py:autocast, cast, cast_dict, cast_needed'), ('solve_with / cast factories', 'skdecide/domains.py:Domain.solve_with, skdecide/solvers.py:Solver._solve')],
     ['the public domain and solver methods and the overridden hooks they delegate to'],
     RM, 'held on the generated level pairs and payloads; singleton containers only when a level cannot express more')

prop('C02', 'Domain lifecycle: reset, step, sample and memory follow the declared model',
     'For a domain built from any combination of the declared characteristics, resetting starts from an initial state and clears the memory, each step draws its next state, value, termination flag and observation from the domain\'s own model applied to the current memory and action, and then records the new state: all past states for a history, the last N for a finite history, the last one for a Markovian domain and nothing for a memoryless one. Sampling from an explicit memory uses that memory and leaves the domain\'s current memory unchanged, and a memory handed to the domain is never modified by later steps.',
     ['histories', 'configurations'], 'all combinations of dynamics, initialization, memory, observability and agent characteristics, and all sequences of reset, step, sample and memory assignment',
     'no test steps a domain through its lifecycle; the sampled tests of solvers only use single-agent Markovian domains.',
     ['skdecide/builders/domain/dynamics.py', 'skdecide/builders/domain/initialization.py', 'skdecide/builders/domain/memory.py', 'skdecide/builders/domain/observability.py'],
     [('step and sample templates', 'skdecide/builders/domain/dynamics.py'), ('memory initialisation', 'skdecide/builders/domain/memory.py:_init_memory')],
     ['outcomes of reset/step/sample and what the model callbacks receive'], RM, 'held on the generated domains and histories')

prop('C03', 'Membership predicates, defaults and constants of a domain agree with its spaces',
     'An action is applicable, an event enabled, an observation valid or a goal reached exactly when the corresponding declared space contains it, for every agent involved, evaluated in the memory given or, by default, in the current one. Quantities declared constant (action, observation and goal spaces, constraints, initial state, memory length, value dependence) are computed at most once per domain instance, always returned identically, and never shared between instances; costs and rewards of a value are always opposite, a positive-cost domain accepts exactly non-negative costs, and a bound constraint holds exactly when its inequality does.',
     ['inputs', 'configurations'], 'all memories, events, observations, agents, values and constraints of generated domains',
     'not covered by any test.',
     ['skdecide/builders/domain/events.py', 'skdecide/builders/domain/goals.py', 'skdecide/builders/domain/observability.py', 'skdecide/builders/domain/value.py', 'skdecide/builders/domain/constraints.py', 'skdecide/core.py'],
     [('membership defaults', 'skdecide/builders/domain/events.py, goals.py, observability.py'), ('cached constants', 'lru_cache-decorated getters')],
     ['public predicates and getters'], RM, 'held on the generated domains')

prop('C04', 'Distributions sample only their support, with the stated probabilities',
     'Sampling a discrete distribution returns only elements of positive weight, with frequencies proportional to the weights whatever their sum, and listing it returns the given elements and probabilities; a single-value distribution always yields its value with probability one; an implicit one yields exactly what its function returns. Empty, implicit, enumerable and samplable spaces contain exactly the elements they enumerate, accept or sample.',
     ['inputs'], 'all weight vectors and spaces, with long sample runs',
     'no test samples a distribution.', ['skdecide/core.py'], [('distribution classes', 'skdecide/core.py')], ['sample, get_values, contains'], 
     'runtime monitoring: online support check and a frequency oracle with a false-alarm probability below 1e-9', 'statistical: a bias smaller than the resolution of the sample size is not seen')

prop('C05', 'Solver matching accepts exactly the domains meeting the declared requirements',
     'A solver type is reported compatible with a domain if and only if the domain provides every characteristic the solver\'s declared domain type requires and passes the solver\'s additional check; matching a domain against candidates returns exactly the compatible ones in the order given. The listed requirements are the most specific characteristics and none of them is implied by another.',
     ['configurations'], 'all combinations of domain characteristics against all combinations of solver requirements',
     'no test matches solvers; the registry contains only a few of the combinations.', ['skdecide/solvers.py', 'skdecide/utils.py'],
     [('requirement extraction', 'skdecide/solvers.py:_get_domain_requirements'), ('matching', 'skdecide/utils.py:match_solvers')], ['check_domain, get_domain_requirements, match_solvers'], RM, 'held on the generated combinations')

prop('C06', 'Rollouts run solver and domain in lock-step for exactly the asked episodes',
     'A rollout resets the solver and starts the domain (by reset, or from the given memory) once per episode, shows the solver exactly the last observation, applies exactly the action the solver returns, and stops an episode exactly at termination or after the maximum number of steps. The episode-returning variant returns the observations, actions and values that actually occurred, in order; saved result files describe the executed transitions; without a solver only applicable actions are taken; every visited state is rendered when rendering is asked for and possible, and never otherwise.',
     ['histories', 'configurations'], 'all domains, policies, episode and step limits and starting points',
     'no test runs a rollout.', ['skdecide/utils.py'], [('rollout loops', 'skdecide/utils.py:rollout, rollout_episode')], ['calls received by the domain and the solver, files written'], RM, 'held on the generated runs')

prop('C07', 'Parallel domains answer every request exactly once, as the domain itself would',
     'Whatever the interleaving of clients and domain processes, each request launched on a parallel domain (pipes or shared memory) is executed exactly once by exactly one domain process, its answer is retrieved under the returned identifier and equals what the sequential domain answers, and a domain that is still serving a request is never given another. A failing job yields no result and leaves the domain usable, a request that cannot be delivered does not consume a domain, and with notification enabled each request is notified exactly once, telling success from failure.',
     ['schedules', 'histories', 'faults'], 'all interleavings of clients and domain processes, all request sequences, failing and undeliverable requests',
     'no test launches a parallel domain; the guarantee depends on the interleaving of several processes.',
     ['skdecide/domains.py', 'skdecide/builders/solver/parallelability.py'], [('request dispatch', 'skdecide/domains.py:ParallelDomain.wake_up_domain, launch, get_result'), ('servers', 'skdecide/domains.py:_launch_domain_server_, _shm_launch_domain_server_')],
     ['launch, get_result, ipc notifications'], 'runtime monitoring: offline checking of request/answer histories under injected delays and faults', 'held on the executed interleavings')

prop('C08', 'LazyAstar returns optimal executable plans and consistent utilities',
     'On every deterministic planning problem whose heuristic is consistent, following the LazyAstar policy from the start state executes only applicable actions and reaches a goal at minimal total cost (at most the weight times the minimal cost for weights above one); on other heuristics the plan is still valid. The policy is defined exactly on the states of the plan, the utility of a plan state is the remaining cost of the plan and of any other state the heuristic value. It is undefined when no goal can be reached, and solving another problem with the same solver object forgets the previous one.',
     ['inputs', 'configurations'], 'all finite deterministic planning problems, consistent heuristics, weights and start states',
     'the tests solve one grid; optimality ranges over all graphs, cost structures (zero costs, ties, several goals) and heuristics.',
     ['skdecide/hub/solver/lazy_astar/lazy_astar.py'], [('best-first search', 'skdecide/hub/solver/lazy_astar/lazy_astar.py:_solve_domain')], ['policy, utility and the executed plan'], RM, 'held on the generated problems')

prop('C09', 'LRTAstar learns executable plans to the goal, optimal when trials never loop',
     'Whenever a goal can be reached within the depth limit, the policy learned by LRTAstar leads from the start state to a goal through applicable actions without looping, on acyclic problems with an admissible heuristic at minimal cost, with the exact utility at the start and none above the remaining cost along the plan; when no goal is reachable it yields no plan. A plan known to reach a goal is never given up for a trial cut by the depth limit, and solving another problem with the same object forgets the previous one.',
     ['inputs', 'histories'], 'all finite deterministic planning problems with admissible heuristics, start states and depth and iteration limits',
     'no test runs LRTAstar.', ['skdecide/hub/solver/lrtastar/lrtastar.py'], [('trials and value backups', 'skdecide/hub/solver/lrtastar/lrtastar.py:doTrial')], ['policy, utility and the executed plan'], RM, 'held on the generated problems; cyclic problems only for validity and completeness (known finding on optimality)')

prop('C10', 'SimpleGreedy and POMCP decide by the domain model and consistent beliefs',
     'SimpleGreedy always returns an applicable action of maximal expected immediate reward in the current state, at the modelling level of the domain, whether or not values depend on the next state. POMCP always returns an action of the domain; the hidden states it simulates when deciding are always consistent with all actions taken and observations received since the last reset, and when one action is clearly better in every such state it is the one returned.',
     ['inputs', 'histories'], 'all small decision processes with enumerable transitions, all action and observation histories',
     'no test runs these solvers.', ['skdecide/hub/solver/simple_greedy/simple_greedy.py', 'skdecide/hub/solver/pomcp/pomcp.py'],
     [('greedy choice', 'simple_greedy.py:_get_next_action'), ('belief update and tree search', 'pomcp.py:_get_next_action, _tree_search')], ['returned actions and the simulation calls received by the domain'],
     RM, 'held on the generated processes; POMCP action quality only where the gap is wide')

prop('C11', 'Graph explorations produce exactly the transition graph of the domain',
     'Exploring a finite domain without limits yields exactly the states reachable from the start without passing through a goal (or terminal) state, with every applicable action, every successor of positive probability, its probability and its cost; with limits it yields a sub-graph without dangling successors that still contains a goal whenever one is reachable. The resulting graph domain then behaves as the original: same applicable actions, next states or distributions, costs, goals and terminal states; merging two graphs gives their union.',
     ['inputs', 'configurations'], 'all finite deterministic domains and goal MDPs, start states and limits',
     'the only test exploring a domain does not import here and samples one instance.', ['skdecide/hub/solver/graph_explorer'],
     [('exploration loops', 'FullSpaceExploration.py, DFSExploration.py, DFS_Uncertain_Exploration.py'), ('graph domains', 'GraphDomain.py')], ['explored graphs and the behaviour of graph domains'], RM, 'held on the generated domains')

CPP = ['cpp/src/utils/associative_container_deducer.hh', 'cpp/src/utils/execution.hh']
CPPRM = 'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer on the real C++ headers plus a reference-model oracle over the recorded answers'
prop('C12', 'The C++ A* solver returns optimal executable plans, also when reused',
     'For every deterministic problem with a consistent heuristic the C++ A* solver, started from any state and possibly reused for several starts or cleared in between, defines a policy whose execution from the start applies only applicable actions and reaches a goal at minimal total cost, reports the minimal remaining cost as value of every state it declares solved, and declares no solution where no goal can be reached. It never reads freed or foreign memory nor executes undefined behaviour.',
     ['inputs', 'histories'], 'all finite deterministic problems with consistent heuristics and all sequences of solve and clear',
     'the stable tests never run the C++ code.', ['cpp/src/hub/solver/astar.hh', *CPP], [('A* search', 'cpp/src/hub/solver/astar.hh:AStarSolver::solve')],
     ['solve, is_solution_defined_for, get_best_action, get_best_value'], CPPRM, 'held on the generated problems; sequential execution')
prop('C13', 'The C++ AO*, ILAO* and LRTDP solvers compute optimal policies of SSPs',
     'For every stochastic shortest path problem with positive costs and an admissible heuristic (acyclic for AO*), the C++ AO*, ILAO* and LRTDP solvers terminate with a policy that is defined and applicable on every state it can reach, whose expected (discounted) cost is optimal up to the requested precision, and with values that agree; dead ends, goals with outgoing actions, several starts on one solver object, clearing and garbage collection of unreachable nodes do not change that. A start from which no policy surely reaches a goal because of dead ends gets no policy. They never access freed memory nor execute undefined behaviour.',
     ['inputs', 'histories'], 'all finite stochastic shortest path problems, heuristics, discounts, random seeds and sequences of solve, act and clear',
     'the stable tests never run the C++ code.', ['cpp/src/hub/solver/aostar.hh', 'cpp/src/hub/solver/ilaostar.hh', 'cpp/src/hub/solver/lrtdp.hh', *CPP],
     [('AO*', 'cpp/src/hub/solver/aostar.hh:solve'), ('ILAO*', 'cpp/src/hub/solver/ilaostar.hh:solve'), ('LRTDP trials and labelling', 'cpp/src/hub/solver/lrtdp.hh:trial, check_solved')],
     ['solve, is_solution_defined_for, get_best_action, get_best_value, policy'], CPPRM, 'held on the generated problems; sequential execution')

prop('C14', 'The C++ IW and BFWS width searches return valid plans found in the defined order',
     'For every deterministic problem with state features, the C++ IW and BFWS solvers return, when they find one, a plan of applicable actions that leads from the start to a goal with the costs and values they report; IW with increasing width prunes exactly the states that bring no novel feature tuple of that width, expands states in the requested order, and finds a plan whenever the search at the largest width is exhaustive; BFWS expands first the open state that is best for its heuristic and novelty. Solving again from other starts on one solver object, clearing, goals at the start and unsolvable problems behave the same, without memory errors or undefined behaviour.',
     ['inputs', 'histories'], 'all finite deterministic graphs, feature functions, orderings, heuristics and sequences of solve and clear',
     'the stable tests never run the C++ code; order and pruning only show in the recorded search.', ['cpp/src/hub/solver/iw.hh', 'cpp/src/hub/solver/bfws.hh', *CPP],
     [('IW', 'cpp/src/hub/solver/iw.hh:WidthSolver::solve, novelty'), ('BFWS', 'cpp/src/hub/solver/bfws.hh:solve, novelty')],
     ['solve, is_solution_defined_for, get_best_action, get_best_value and the calls made to the domain, features and heuristic'], CPPRM, 'held on the generated graphs; sequential execution')

prop('C15', 'The C++ RIW and MCTS online planners choose legal, budgeted, sound actions',
     'Whatever the domain (acyclic or cyclic, deterministic or stochastic where supported), in episodes where the C++ RIW or MCTS solver plans, acts and plans again, with or without removing unreachable nodes, in simulation, sampling or distribution mode, with and without clearing between episodes: they only simulate applicable actions, never act beyond a terminal state, never roll out longer than the maximum depth, use at most the given number of rollouts, always propose an applicable action for a state they planned from, and the environment state always equals the state they believe in. Without pruning, RIW values and actions are optimal on acyclic deterministic domains; MCTS action values lie within the achievable returns. No memory error or undefined behaviour occurs.',
     ['inputs', 'histories', 'random seeds'], 'all finite domains, budgets, depths, discounts, modes, random seeds and episodes',
     'the stable tests never run the C++ code.', ['cpp/src/hub/solver/riw.hh', 'cpp/src/hub/solver/mcts.hh', *CPP],
     [('RIW rollouts, novelty and backups', 'cpp/src/hub/solver/riw.hh:rollout, novelty, backup_values'), ('MCTS tree policy, expansion, rollout and backup', 'cpp/src/hub/solver/mcts.hh')],
     ['solve, get_best_action, get_best_value, policy, action_prefix, clear and the calls made to the domain'], CPPRM, 'held on the generated domains; sequential execution')

prop('C16', 'Spaces bridged to Gym have consistent membership, sampling and conversions',
     'Every space of hub.space.gym (box, discrete, multi-discrete, multi-binary, tuple, dict, enum, list and data-class spaces, nested ones included) contains every element it samples or enumerates and rejects elements outside it; an enum or list space enumerates exactly its elements and can sample each of them; converting elements to JSON or to the unwrapped Gym space and back yields the same elements in the same order, unwrapped elements belong to the unwrapped space, and samples of the unwrapped space convert to members of the space.',
     ['inputs'], 'all spaces of the supported kinds and all their elements',
     'no stable test touches these spaces.', ['skdecide/hub/space/gym/gym.py'],
     [('GymSpace and subclasses', 'skdecide/hub/space/gym/gym.py:GymSpace, EnumSpace, ListSpace, DataSpace')],
     ['contains, sample, get_elements, to_jsonable, from_jsonable, to_unwrapped, from_unwrapped, unwrapped'], RM, 'held on the generated spaces')

prop('C17', 'Wrapping a Gym environment as a domain, and back, preserves its behaviour',
     'A Gym environment wrapped by any class of hub.domain.gym produces through reset, step, sample and the model queries exactly the observations, rewards, terminations and infos that the bare environment produces for the same action sequence, in whatever order states are expanded, whether states are restored by deep copy or by the given get/set functions; hashable states are equal exactly when their observations are; planning goals are reached exactly at the maximum depth or, if requested, at termination. AsGymEnv exchanges elements of the spaces it declares and reports the same trajectory as its domain. Discretized actions all belong to the action space, cover every discrete action once and form the regular grid of a box with its bounds. Feature vectors have a constant declared size, binary ones distinguish different states, boundary-extension ones are stable and order preserving, elliptical ones decrease towards the goal.',
     ['inputs', 'histories', 'configurations'], 'all deterministic environments, observation and action spaces, wrappers and orders of queries',
     'no stable test touches the Gym wrappers.', ['skdecide/hub/domain/gym/gym.py'],
     [('domain wrappers', 'skdecide/hub/domain/gym/gym.py:GymDomain, DeterministicInitializedGymDomain, DeterministicGymDomain, GymPlanningDomain'), ('features and discretization', 'skdecide/hub/domain/gym/gym.py:GymWidthDomain, GymDiscreteActionDomain'), ('reverse wrapper', 'skdecide/hub/domain/gym/gym.py:AsGymEnv')],
     ['reset, step, sample, get_next_state, get_transition_value, is_terminal, goals, applicable actions, features'], RM, 'held on the generated environments')

prop('C18', 'The hub toy domains model the games they describe',
     'In every maze, grid, code-breaking or rock-paper-scissors game, from every state and for every action, the next state, cost or reward, observation, goal and termination are those of the rules: walls and borders block moves at cost 2 and other moves cost 1, observations belong to the observation space, MasterMind answers the number of exact and misplaced colours and ends on the exact code, RockPaperScissors is zero-sum, lets each player see the other move and ends after the given number of moves. Planning in them yields shortest plans.',
     ['inputs', 'histories'], 'all mazes, grids, colour and position numbers, hidden codes, guesses and move sequences',
     'the sampled tests only build default instances.', ['skdecide/hub/domain/maze/maze.py', 'skdecide/hub/domain/simple_grid_world/simple_grid_world.py', 'skdecide/hub/domain/mastermind/mastermind.py', 'skdecide/hub/domain/rock_paper_scissors/rock_paper_scissors.py'],
     [('Maze', 'skdecide/hub/domain/maze/maze.py'), ('SimpleGridWorld', 'skdecide/hub/domain/simple_grid_world/simple_grid_world.py'), ('MasterMind', 'skdecide/hub/domain/mastermind/mastermind.py'), ('RockPaperScissors', 'skdecide/hub/domain/rock_paper_scissors/rock_paper_scissors.py')],
     ['the public domain methods'], RM, 'held on the generated games')

prop('C19', 'Scheduling simulation follows the problem data and the action history',
     'In every scheduling domain (single or multi-mode, with precedence, renewable, non-renewable, time-varying and unit resources, skills, preemption, conditional tasks, deterministic, uncertain or simulated durations), after every history of start, pause, resume and time-advance actions the state holds exactly the times, modes, running, paused, complete, conditional and unlaunchable tasks, available and used resources implied by the problem data: no task runs without its predecessors, resources and skills, renewable resources are returned on completion or pause, non-renewable ones are consumed once, capacities are never exceeded at any date, durations are respected. The applicable actions are exactly those feasible in the state, infeasible starts are refused without effect, outcome probabilities sum to one over exactly the possible outcomes, costs are those of the elapsed time and resources used, goals and terminal states are reached exactly when all tasks are done or the horizon passes, and states with equal content are equal and independent of one another.',
     ['inputs', 'histories', 'random seeds'], 'all scheduling problems and all action histories',
     'tests/test_scheduling.py cannot be imported here and samples three toy problems.', ['skdecide/builders/scheduling'],
     [('state updates', 'scheduling_domains.py:update_start_tasks, update_pause_tasks, update_resume_tasks, update_complete_tasks, update_progress, update_conditional_tasks'), ('applicable actions', 'scheduling_domains.py:SchedulingActionSpace, check_if_action_can_be_started'), ('resources and skills', 'resource_*.py, skills.py'), ('states', 'scheduling_domains_modelling.py:State')],
     ['states, applicable actions, next-state distributions, values, goals and terminal states of the public domain API'], RM, 'held on the generated problems and histories')

RDO = 'skdecide/builders/discrete_optimization/'
prop('C20', 'RCPSP permutations decode to the serial schedule, judged consistently',
     'For every project (single or multi-mode, renewable, non-renewable or calendar resources) and every activity permutation and mode choice, decoding yields exactly the serial schedule: each activity in list order at its earliest date respecting predecessors and resources, or an explicit infeasibility; satisfy accepts, among the schedules in which every activity has its duration, exactly those that respect precedence, capacities at every date and non-renewable totals; evaluation reports the makespan, penalties and reserve of that schedule, always for the current permutation and modes whatever the history of edits, copies and problem changes. Decoding from a partial execution keeps what was done and what is ongoing. Parsed instances, encodings, derived single-mode, calendar, robust and uncertain models and resource helpers describe the same project.',
     ['inputs', 'histories'], 'all projects, permutations, modes, partial executions and edit histories',
     'no stable test touches the discrete optimisation package.', [RDO + 'rcpsp'],
     [('serial generation', RDO + 'rcpsp/rcpsp_model.py:generate_schedule_from_permutation_serial_sgs, generate_schedule_from_permutation_serial_sgs_2'), ('judging', RDO + 'rcpsp/rcpsp_model.py:RCPSPModel.satisfy, evaluate, evaluate_from_encoding'), ('parsing', RDO + 'rcpsp/rcpsp_parser.py')],
     ['solutions, evaluations, satisfy, copies, parsed models'], RM, 'held on the generated projects')
GT = RDO + 'generic_tools'
prop('C21', 'Result storages, Pareto fronts, mutations and local searches are consistent',
     'A result storage always gives a best solution of best fitness among those added, in either sense, and a Pareto front holds exactly the non-dominated ones. Every mutation yields a legal neighbour (a permutation stays a permutation, integers stay in their range), changes only the part it is about, reports the objectives of the neighbour it returns, can reach every element, leaves the given solution intact unless it works in place, and its move undoes and redoes it exactly. Hill climbing and simulated annealing, for every problem, mutation, sense, weighting and restart policy, keep the objective of the current solution true, accept what they should, restart from the best, never alter the start, and return solutions with their own fitness, among them the best one evaluated. Aggregated, robust and vector objectives are those of the declared weights and methods; graphs answer their own edges.',
     ['inputs', 'histories', 'random seeds'], 'all sequences of additions, problems, solutions, mutations, search parameters and random draws',
     'no stable test touches the discrete optimisation package.', [GT],
     [('storages', GT + '/result_storage/result_storage.py'), ('mutations and moves', GT + '/mutations'), ('local searches', GT + '/ls')],
     ['best solutions, fronts, neighbours, undone solutions, stored fitness values, observed states of the search'], RM, 'held on the generated problems and seeds')
prop('C22', 'Evolutionary algorithms evaluate legal encodings and return the best evaluated',
     'For every problem with a permutation, boolean, integer or mixed-arity encoding and every choice of encoding (by name, by description or default), operators, custom mutation, selection, rates, population size, objectives and weights, the genetic algorithm, the alternating genetic algorithm and NSGA only ever evaluate legal vectors of the chosen encoding, within the evaluation budget. The genetic algorithm returns the best vector it evaluated under the chosen objectives and weights, as a legal solution that keeps the attributes held fixed, with the default fitness of that solution. The alternating one cycles through its encodings, keeps the best of each phase fixed for the next one and returns the best of the last. NSGA returns a population of evaluated solutions with their own weighted objectives, a best one that is not dominated, and never loses the best when one objective order decides.',
     ['inputs', 'random seeds'], 'all problems, encodings, operators, parameters and random draws',
     'no stable test touches the discrete optimisation package.', [GT + '/ea'],
     [('genetic algorithm', GT + '/ea/ga.py:Ga'), ('alternating genetic algorithm', GT + '/ea/alternating_ga.py:AlternatingGa'), ('multi-objective', GT + '/ea/nsga.py:Nsga'), ('mutation wrapper', GT + '/ea/deap_wrappers.py')],
     ['every evaluated vector, returned solutions, stored fitness values'], RM, 'held on the generated problems, settings and seeds')
prop('C23', 'Project scheduling solvers return feasible schedules, exact ones optimal ones',
     'For every project (single or multi-mode, renewable, non-renewable or calendar resources), every solution returned by the critical path, greedy, constraint programming, mode choice, linear programming, large neighbourhood, iterative calendar, local search and genetic RCPSP solvers is a complete schedule that respects precedence, durations, capacities at every date and non-renewable totals, stored with the fitness of that schedule, and the reported best is the best stored. Exact solvers find the minimal makespan, or report none exactly when none exists, also under any partial solution (start dates, modes, orders, start-together, start-at-end and offset constraints), all of which hold in what they return. Earliest and latest dates and the critical path are those of the precedence graph. Neighbourhoods keep what they fix, never lose the best solution, and solvers never modify the project.',
     ['inputs', 'solver parameters', 'random seeds'], 'all projects, partial solutions, start solutions and solver parameters',
     'no stable test touches the discrete optimisation package; MiniZinc and MIP backends are not run by any test here.', [RDO + 'rcpsp/solver', RDO + 'rcpsp/rcpsp_solvers.py', GT + '/lns_mip.py', GT + '/lns_cp.py'],
     [('critical path', RDO + 'rcpsp/solver/cpm.py:CPM'), ('greedy', RDO + 'rcpsp/solver/rcpsp_pile.py'), ('constraint programming', RDO + 'rcpsp/solver/cp_solvers.py'), ('linear programming', RDO + 'rcpsp/solver/rcpsp_lp_solver.py'), ('large neighbourhood search', RDO + 'rcpsp/solver/rcpsp_cp_lns_solver.py, rcpsp_lp_lns_solver.py'), ('calendars', RDO + 'rcpsp/solver/calendar_solver_iterative.py')],
     ['returned schedules, modes, stored fitness, critical path dates'], RM, 'held on the generated projects; optimality is judged by exhaustive search')
prop('C24', 'Tours, moves and solvers of the TSP agree with the points',
     'For every plane instance, extremities and tour: evaluation (plain or compiled, from either encoding) reports exactly the length of every leg and their sum; a solution satisfies the problem exactly when it visits every intermediate point once; both encodings always describe the same tour, whatever the edits, copies, moves and problem changes, and copies are independent. Every 2-opt, intersection and swap move yields a legal neighbour whose stored legs, length and reported objectives are true, the best one when all are tested and never a worse one when only improvements are asked for; undo and redo restore exactly. The linear and constraint programming solvers return an optimal tour, the routing solver works with the true distances, the greedy one goes to the closest point, and every stored fitness is that of its tour. Parsers, distance matrices and graphs contain exactly the given points and distances; importing the tools changes nothing in the process.',
     ['inputs', 'histories', 'random seeds'], 'all instances, tours, move sequences and solver parameters',
     'no stable test touches the discrete optimisation package.', [RDO + 'tsp'],
     [('tours', RDO + 'tsp/tsp_model.py'), ('moves', RDO + 'tsp/mutation/mutation_tsp.py'), ('tools', RDO + 'tsp/common_tools_tsp.py'), ('solvers', RDO + 'tsp/solver')],
     ['tours, legs, lengths, objectives, moves, solver results'], RM, 'held on the generated instances; optimality is judged by enumeration')
prop('C25', 'Knapsack selections, moves and solvers agree with the items',
     'For every set of items (whatever their indexes, also items that cannot fit or are worthless), capacity and selection: evaluation, single and multi-objective, reports exactly the value and the excess weight of the selection, satisfy accepts exactly the selections within the capacity, equal selections have equal hashes, copies are independent, a selection moved to another problem is evaluated on that problem, and a model told to recompute never trusts stored values. Every knapsack move changes what it says, reports the true objectives of its neighbour, never overloads a knapsack by adding an item, and undo and redo restore selection and values exactly. Every solver returns a selection within the capacity whose stored value, weight and fitness are true; dynamic programming, linear, constraint programming and branch-and-bound solvers return an optimal one, the greedy ones leave no room for a remaining item, neighbourhood searches keep what they fix and never lose the best. Parsers read exactly the given items.',
     ['inputs', 'histories', 'random seeds'], 'all instances, selections, move sequences and solver parameters',
     'no stable test touches the discrete optimisation package.', [RDO + 'knapsack'],
     [('selections', RDO + 'knapsack/knapsack_model.py'), ('moves', RDO + 'knapsack/mutation/mutation_knapsack.py'), ('solvers', RDO + 'knapsack/solvers'), ('catalogue', RDO + 'knapsack/knapsack_solvers.py')],
     ['selections, values, weights, objectives, moves, solver results'], RM, 'held on the generated instances; optimality is judged by enumeration')
prop('C26', 'Colourings, cliques and solvers agree with the graph',
     'For every undirected graph (any node names, isolated nodes, several components, edges given twice) and colouring: evaluation reports exactly the number of colours and of edges whose ends share one, also after edits, moves, undone moves, copies and problem changes; satisfy accepts exactly the proper colourings; reformatting keeps the classes and numbers them by appearance; copies are independent. Clique enumeration returns distinct maximal cliques, as many as asked, and tells truly whether all were found. Every greedy strategy, linear, constraint programming and neighbourhood search returns only proper colourings stored with their fitness; greedy ones never use more than the largest degree plus one, the exact ones use the chromatic number, neighbourhood searches keep what they fix, remove their constraints, and never end with more colours than they started with. Parsed graphs are the given ones.',
     ['inputs', 'histories', 'random seeds'], 'all graphs, colourings, move sequences and solver parameters',
     'no stable test touches the discrete optimisation package.', [RDO + 'coloring'],
     [('colourings', RDO + 'coloring/coloring_model.py'), ('cliques', RDO + 'coloring/coloring_toolbox.py'), ('solvers', RDO + 'coloring/solvers'), ('parser', RDO + 'coloring/coloring_parser.py')],
     ['colourings, reported counts, cliques, solver results'], RM, 'held on the generated graphs; optimality is judged by exhaustive search')
prop('C27', 'Facility assignments, costs and solvers agree with the sites',
     'For every set of facilities, customers and assignment: evaluation reports exactly the travelling cost, the setup cost of the facilities used and the total overload of all facilities (with the details of each), satisfy accepts exactly the assignments within every capacity, copies are independent, and an assignment edited, moved, undone or transferred to another problem is evaluated as it is. The length matrix is that of the sites; pruning keeps exactly the pairs of the cheapest facilities and of those closest to each customer. The greedy, linear, constraint programming and neighbourhood search solvers return assignments within the capacities, stored with their true cost; exact ones return a cheapest assignment among the pairs they consider (with distances rounded down for constraint programming), neighbourhood searches keep what they fix, remove their constraints and never end with a costlier assignment than they started with. Parsers read exactly the given sites.',
     ['inputs', 'histories', 'random seeds'], 'all instances, assignments, move sequences and solver parameters',
     'no stable test touches the discrete optimisation package.', [RDO + 'facility'],
     [('assignments', RDO + 'facility/facility_model.py'), ('solvers', RDO + 'facility/solvers'), ('parser', RDO + 'facility/facility_parser.py')],
     ['assignments, reported costs and overloads, matrices, solver results'], RM, 'held on the generated instances; optimality is judged by enumeration')
prop('C28', 'Vehicle routes, loads and solvers agree with the customers',
     'For every set of places, depots (one, several, different ends), vehicles and routes: evaluation reports exactly the length of every leg of every vehicle from its start to its end, their sum, the load of each vehicle and the total overload; satisfy accepts exactly the routes that serve every customer once within every capacity; copies are independent, and routes moved to another problem are evaluated there. Distance matrices, nearest places and graphs are those of the places; pruning keeps exactly the nearest ones and the depot with their true distances. The greedy solver never overloads a vehicle and leaves a customer out only when no vehicle has room for it; the OR-tools and linear solvers return complete routes within the capacities that start and end where each vehicle does, stored with their true length, and the linear one the shortest ones whenever its relaxation is connected. Parsers read exactly the given places and written tours are those given.',
     ['inputs', 'histories', 'random seeds'], 'all instances, route sets, depots, capacities and solver parameters',
     'no stable test touches the discrete optimisation package.', [RDO + 'vrp'],
     [('routes', RDO + 'vrp/vrp_model.py'), ('tools', RDO + 'vrp/vrp_toolbox.py'), ('solvers', RDO + 'vrp/solver'), ('parser', RDO + 'vrp/vrp_parser.py')],
     ['routes, legs, loads, overloads, matrices, solver results'], RM, 'held on the generated instances; optimality is judged by enumeration')
prop('C29', 'Multi-skill schedules, workers and solvers agree with the project',
     'For every multi-skill project (modes, skills, workers with calendars, renewable and non-renewable resources, one-worker-per-task rule on or off) and schedule: evaluation reports exactly the makespan and overuse; satisfy accepts exactly the schedules that respect precedences, durations, calendars, capacities, the availability and single booking of workers, every skill needed, and the one-worker rule. Task, worker and mode priorities decode to the serial schedule in which each task starts as early as the workers of highest priority allow; copies are independent, edited solutions are decoded again, and genetic encodings stand for the same schedule. Derived models (multi-mode variants, representative RCPSP, reductions to fixed modes) keep the project; shifting left never breaks a schedule nor ends it later; files are read exactly. Genetic, RCPSP-based, constraint programming, linear, large neighbourhood and iterative calendar solvers return only valid schedules stored with their fitness; exact ones are never longer than the best serial schedule and keep what is fixed, also with calendars of workers and resources; searches never lose the schedule they start from. Neighbourhoods contain their schedule and keep the dates and workers they fix; calendar cuts exclude no valid schedule.',
     ['inputs', 'histories', 'random seeds'], 'all projects, priorities, schedules, edit histories and solver parameters',
     'no stable test touches the discrete optimisation package.', [RDO + 'rcpsp_multiskill'],
     [('model and decoding', RDO + 'rcpsp_multiskill/rcpsp_multiskill.py'), ('solvers', RDO + 'rcpsp_multiskill/solvers'), ('parser', RDO + 'rcpsp_multiskill/rcpsp_multiskill_parser.py')],
     ['schedules, worker bookings, reported objectives, derived models, files, solver results'], RM, 'held on the generated projects; optimality is judged against serial schedules and small searches')
prop('C30', 'Hub scheduling domains and optimisation models describe the same project',
     'For every scheduling project (one or several modes, renewable and non-renewable resources, calendars up to the horizon, uncertain durations, workers with skills): the hub domains built from its data, from an optimisation model or loaded from a file report exactly its tasks, modes, durations, needs, precedences, horizon, renewability and the quantity of every resource at every date; conversions both ways keep them and decode permutations to the same schedules. Every feasible schedule replays as applicable actions that finish at the same dates, a schedule breaking precedence or capacity is refused, whatever a domain accepts on a walk is feasible, and the last state gives the solution with the same dates and modes. Uncertain variants keep the project, their durations come from the distribution, and each sampled instance is a deterministic project with durations of the distribution. Multi-skill conversions keep workers, skills, calendars and needs, and a task without the workers it needs cannot start.',
     ['inputs', 'histories', 'random seeds'], 'all projects, schedules, walks and chains of conversions',
     'the stable tests load a few files and look at single numbers.', ['skdecide/hub/domain/rcpsp', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py', 'skdecide/builders/scheduling'],
     [('hub domains', 'skdecide/hub/domain/rcpsp/rcpsp_sk.py'), ('loading', 'skdecide/hub/domain/rcpsp/rcpsp_sk_parser.py'), ('conversions', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py')],
     ['domain queries, applicable actions, states, converted models, schedules'], RM, 'held on the generated projects')
prop('C31', 'Scheduling policies start exactly the tasks they stand for and finish projects',
     'For every scheduling project (modes, calendars, non-renewable resources, certain or uncertain durations, workers, conditional tasks) and state: following a Gantt chart starts each task at its planned date and finishes a feasible plan exactly; the ready, precedence, strict, time-freedom and index-freedom policies start the first startable task among those their rule allows, given the order, the planned dates and the freedom, and wait otherwise; with planned workers exactly those are booked. The pile policy starts a startable task with most descendants, or fastest, or random as asked, and never waits while one is startable. Tasks that do not exist under the current conditions are neither started nor waited for. The meta-policy takes the first action of a policy with the least estimated makespan and is never worse than its policies on a known project. Every policy leaves observations and domains unchanged, every episode ends with a valid schedule of the chosen modes, and the solver bindings (greedy, genetic, local search, constraint programming, linear) return valid plans their policy then executes exactly.',
     ['inputs', 'histories', 'random seeds'], 'all projects, plans, policies, states and durations drawn',
     'the stable tests run a few policies on two files and look at the makespan.', ['skdecide/hub/solver/sgs_policies', 'skdecide/hub/solver/pile_policy', 'skdecide/hub/solver/meta_policy', 'skdecide/hub/solver/do_solver', 'skdecide/builders/scheduling/precedence.py'],
     [('rules of the policies', 'skdecide/hub/solver/sgs_policies/sgs_policies.py'), ('greedy', 'skdecide/hub/solver/pile_policy/pile_policy.py'), ('choice among policies', 'skdecide/hub/solver/meta_policy/meta_policies.py'), ('bindings', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py')],
     ['actions in every visited state, final schedules, states before and after a decision'], RM, 'held on the generated projects')

prop('C32', 'Policy values are exact and priority rules are executed as they are evaluated',
     'For every goal decision process with outcome distributions (loops, dead ends, outcomes of probability zero) and deterministic policy, the evaluator visits exactly the reachable states, links exactly the outcomes that can happen, and gives each state from which the policy surely reaches a goal without loops its expected cost, and no other state a value. Sampled evaluation averages exactly the costs of the runs of the policy it made, and leaves the domain as it was. Every feature of a task that priority rules use has its documented value (durations, resources, successors, descendants, critical path); a rule, a pool of rules (mean, median, random, extremes removed) and a fixed permutation are executed as valid complete schedules, on certain projects exactly the serial schedule of the tasks sorted by priority; an evolved rule is scored by the makespan (or distance to the reference permutations) it really has, and the solver follows its best rule.',
     ['inputs', 'histories', 'random seeds'], 'all processes, policies, projects, rules and pools drawn',
     'the stable tests run neither the evaluators nor genetic programming.', ['skdecide/hub/solver/policy_evaluators', 'skdecide/hub/solver/gphh'],
     [('expected cost', 'skdecide/hub/solver/policy_evaluators/policy_evaluator.py'), ('features, rules, pools', 'skdecide/hub/solver/gphh/gphh.py')],
     ['values, links and visited states, features, schedules executed, fitness of evolved rules'], RM, 'held on the generated processes and projects')

prop('C33', 'Characteristics of scheduling problems and graphs describe what they were given',
     'For every project described through the scheduling characteristics: durations (deterministic, uniform, enumerable, bounded, multivariate) have exactly the given distribution and bounds in the given mode and from the given progress, samples are possible durations, simulated durations are drawn once and kept; progress is linear in the latest duration. Modes consume exactly the given resources at each date; predecessors, successors, ancestors and descendants are those of the graph; the tasks possible by precedence, existing under the current conditions, or still possible with the non-renewable resources left are exactly those; skills needed, held and fulfilled are those given; completion conditions are drawn from each given distribution; windows, lags and the characteristics of problems without them (skills, preemption, costs, conditions) have their documented values. The active time of a task counts exactly the dates at which it was active. States with equal content are equal, with equal hashes, copies are equal and share nothing. Graphs report exactly the given nodes, edges, attributes, neighbours, reachability and loops.',
     ['inputs', 'histories', 'random seeds'], 'all projects, graphs, states and histories drawn',
     'the stable tests build a few fixed domains and never query most characteristics.', ['skdecide/builders/scheduling'],
     [('durations', 'skdecide/builders/scheduling/task_duration.py'), ('precedence and conditions', 'skdecide/builders/scheduling/conditional_tasks.py'), ('states', 'skdecide/builders/scheduling/scheduling_domains_modelling.py'), ('graphs', 'skdecide/builders/scheduling/graph_toolbox.py')],
     ['distributions, samples, bounds, sets of tasks, attributes of windows, equality of states'], RM, 'held on the generated descriptions')

LRN = 'skdecide/hub/solver/'
prop('C34', 'Learning solvers (CGP, ARS, MaxEnt IRL) act legally and learn by their rule',
     'For every program graph, function library and input history, a CGP program outputs the values of its graph, stepped synchronously from zero; programs drawn at random or mutated are legal, every legal value of every gene can be reached, mutation touches only the genes its rates allow and never the parent, and a program mutated after it ran runs its new genome. Clones, saved files, drawings and formulas describe the same program; the default functions have their meaning and stay within [-1, 1]. The evolution evaluates every offspring once, in sequence or in parallel, keeps the best one (the newest among equals), never loses fitness, and logs and saves exactly the improvements. Observations are normalised component by component from their bounds onto [-1, 1], clamped, and denormalised outputs are legal actions at the same relative place; domains with spaces that cannot be read are refused. CGP, ARS and MaxEnt IRL play the announced number of episodes within the announced length with legal actions only; the CGP fitness is the mean of the episode rewards weighted by rank; the ARS policy follows its update rule from the clipped rewards of the best directions; the IRL table is that of Q-learning over the visited cells with the learnt rewards, states on the bounds included; every policy acts by what was learnt, and saved tables and genomes are reused.',
     ['inputs', 'histories', 'random seeds'], 'all programs, libraries, input histories, spaces, environments and search parameters drawn',
     'no stable test touches these solvers.', [LRN + 'cgp', LRN + 'ars', LRN + 'maxent_irl'],
     [('programs', LRN + 'cgp/pycgp/cgp.py'), ('evolution', LRN + 'cgp/pycgp/cgpes.py'), ('normalisation', LRN + 'cgp/cgp.py:norm_and_flatten, denorm'), ('random search', LRN + 'ars/ars.py'), ('inverse reinforcement learning', LRN + 'maxent_irl/maxent_irl.py')],
     ['program outputs, genomes, files, actions, episodes, fitness, policies and tables'], RM, 'held on the generated programs and environments')

prop('C35', 'Search-solver front ends pass options, functors and results unchanged',
     'For every choice of options, functors and domain, each of the nine front ends of the compiled search solvers (A*, AO*, BFWS, IW, RIW, LRTDP, ILAO*, MCTS, UCT) creates one compiled solver with exactly the options given (the documented default for those not given), under the argument names its binding declares, and clears it before solving. In sequential and in parallel mode (pipes or shared memory), the functors it receives (goal checker, heuristic, state features, termination checker, custom policy, node ordering) mean the user functions on the domain and state concerned, a request made for a given thread is served by the domain of that thread, and missing functors have their documented meaning. Asking an action plans from that observation exactly when no solution is defined for it or continuous planning is on, never otherwise; the action is the one of the compiled solver (a legal random action in its absence where documented); actions sampled, utilities, policies, prefixes and statistics are those of the compiled solver; asking never forgets a plan, resetting does exactly where documented. The solvers work inside and outside a with statement, and no domain process is left once closed.',
     ['inputs', 'histories'], 'all options, functors, graphs and sequences of calls drawn',
     'the stable tests cannot import these front ends (no compiled module).', [LRN + n + '/' + n + '.py' for n in ('astar', 'aostar', 'bfws', 'iw', 'riw', 'lrtdp', 'ilaostar', 'mcts')] + ['skdecide/builders/solver/parallelability.py'],
     [('front ends', LRN + '*/: _init_solve, _get_next_action'), ('domains', 'skdecide/builders/solver/parallelability.py'), ('bindings', 'cpp/src/hub/solver/py_*.cc')],
     ['arguments and calls received by the compiled solver', 'values of functors', 'answers, processes'], RM, 'held on the generated sessions')

HH = 'cpp/src/hub/solver/'
prop('C36', 'Compiled solvers run their parallel loops without races and stay correct',
     'For every domain, number of threads, number of parallel domains and interleaving, the compiled search solvers executed with the parallel policy never access memory concurrently without synchronisation, never read a state before it is initialised, never deadlock, never use a domain out of range or one that is not in the state they assume, and never apply an action that is not applicable. A* returns optimal plans and values, AO* and ILAO* optimal policies and values (within the precision asked), IW and BFWS executable plans, a plan exactly when one exists where the sequential solver guarantees it, and no plan for unsolvable states. LRTDP, RIW and MCTS give an applicable action for every solvable start, values within the bounds of what is achievable (lower bounds of the cost, upper bounds of the reward), episodes that end, budgets of simulations exceeded by at most the ones running at once, and MCTS the best action once every action ends the episode and was tried.',
     ['inputs', 'schedules', 'histories', 'random seeds'], 'all domains, thread counts, delays and sequences of calls drawn, every interleaving observed',
     'the compiled module is not built here, and the stable tests never execute a parallel loop.', [HH + n + '.hh' for n in ('astar', 'aostar', 'ilaostar', 'lrtdp', 'iw', 'bfws', 'riw', 'mcts')] + ['cpp/src/utils/execution.hh'],
     [('parallel expansion', HH + '{astar,aostar,ilaostar,iw,bfws}.hh: solve'), ('parallel simulations', HH + '{lrtdp,riw,mcts}.hh'), ('execution policies', 'cpp/src/utils/execution.hh')],
     ['memory accesses of all threads', 'calls to each parallel domain', 'plans, values and policies'], RM, 'held on the generated domains and observed interleavings')

CB = 'cpp/src/builders/domain/'
prop('C37', 'C++ core: memories, distributions, spaces, domain builders, execution policies',
     'For every history of operations on the C++ core: a bounded memory holds exactly the last elements pushed (dropping from the opposite end, at construction too, also when the pushed element is one of its own), copies and comparisons included; a discrete distribution has exactly the given elements, with merged and normalised weights, and samples follow them, also after copies, moves and the destruction of the original; single-value and implicit distributions, implicit spaces, JSON conversions, transition values and outcomes mean what they were given. A domain makes each of its spaces, goals and initial distributions once; membership, goals, observations, enabled events and applicable actions are those of the domain and of the memory concerned; reset draws a possible initial state, gives its observation and makes it the memory, of the length of the domain; querying an uninitialised or empty memory raises the documented exception. Containers deduced from the hash and equality or the order of a key identify elements by that key. Conversions from text round-trip and refuse what is not a value. The sequential and parallel execution policies visit each element exactly once, the sequential one at a time, and protected sections exclude each other. No operation reads invalid memory or has undefined behaviour.',
     ['inputs', 'histories', 'schedules'], 'all histories, weights, elements, domains and loop sizes drawn',
     'the C++ library and its tests are not built here: no stable test executes it.', ['cpp/src/core.hh'] + [CB + n + '.hh' for n in ('memory', 'initialization', 'observability', 'goals', 'events')] + ['cpp/src/utils'],
     [('memories, distributions, spaces, outcomes', 'cpp/src/core.hh'), ('domains', CB + '*.hh'), ('containers, conversions, policies', 'cpp/src/utils/*.hh')],
     ['printed contents after each operation', 'samples', 'exceptions', 'sanitizer reports'], RM, 'held on the generated histories')

DO = 'skdecide/builders/discrete_optimization/'
prop('C38', 'Travelling thief, robustness studies, comparison of results, look-up policies',
     'For every travelling thief instance, the parsed model has the cities, items, capacity, speeds and renting ratio of the file, and the evaluation of a tour and a packing gives the profit, distance, travel time at the speed the carried weight allows, weight and objective recomputed from the instance; a solution is accepted exactly when its tour is closed and visits each city once, its items are taken in their own city and the knapsack holds them. Every mutation returns a valid solution that differs from the given one by one item, by the swap of two, or by the reversal of one segment, never changes the given one, announces its actual objective and can be taken back; those that keep only improvements never worsen; local searches built on them announce actual objectives and never return worse than where they start. A robustness study partitions the instances, builds the aggregated and averaged models of the training instances only, and reports for every model and test instance the feasibility, makespan and reserve of its solution there; its local search announces actual values and never ends worse than its start. Comparisons of results show the given values: fronts, best values in the sense of the optimisation, non-dominated union, re-evaluations. Look-up policies answer from their table exactly, and two schedules are compared by their actual start times and orders.',
     ['inputs', 'histories', 'random seeds'], 'all instances, packings, mutation histories, projects, result stores and tables drawn',
     'no stable test imports these modules.', [DO + 'ttp', DO + 'generic_tools/robustness', DO + 'generic_tools/result_storage/resultcomparator.py', DO + 'generic_tools/policy_sk.py', DO + 'rcpsp/rcpsp_utils.py'],
     [('travelling thief', DO + 'ttp/ttp_model.py, ttp_parser.py'), ('mutations', DO + 'ttp/solver/mutation_ttp.py'), ('robustness', DO + 'generic_tools/robustness/robustness_tool.py'), ('comparisons', DO + 'generic_tools/result_storage/resultcomparator.py'), ('policies', DO + 'generic_tools/policy_sk.py')],
     ['fields of evaluated solutions', 'mutated solutions and announced objectives', 'result tables', 'data of the plots', 'policy answers'], RM, 'held on the generated instances and studies')

"""For each check: the oracle, and why it reaches what unit tests do not; what is left out."""
O = {
'C01': ('Payloads are built as core values (lists of per-agent events, lists of states) and encoded independently at both levels; every value seen by the callee and returned to the caller is decoded and compared exactly.', 'all level pairs x all castable operations x nested payloads, against hand-picked pairs in the tests', ''),
'C02': ('An independent process model: transition tables plus the declared memory discipline; every outcome, the arguments received by each `_get_*` callback and the memory after each call are compared.', 'random interleavings of reset/step/sample/set_memory over every combination of characteristics', ''),
'C03': ('The declared finite spaces themselves: membership of every universe element is computed from the space, constants by call counting.', 'every predicate, agent and memory form, default and explicit memory', ''),
'C04': ('Support is exact on every sample; frequencies by a chi-square-like bound with a false-alarm rate below 1e-9 per run.', 'all weight shapes, long samples', 'weights are non-negative with a positive sum'),
'C05': ('A hand-written lattice of the characteristics (refinement order inside each family) decides acceptance; compared with `check_domain`, `match_solvers` and registry matching.', 'thousands of characteristic combinations, custom mixins and predefined classes', 'registry entries whose dependency is absent'),
'C06': ('A recorder on both sides of the domain/solver boundary; the event log is checked against a trace specification (who is called with what and in which order, limits, saved files).', 'random memories, policies, limits, terminations', 'frame rate'),
'C07': ('Histories of requests and answers from several client threads over real child processes (pipe and shared memory): exactly-once answers, per-domain order, equality with the sequential domain, no lost notification. Delays are injected on both sides; the evidence counts distinct completion orders.', 'schedules, failing jobs and several clients', 'a hang is only reported when every process involved is blocked without CPU use'),
'C08': ('Dijkstra on the generated graph; plans are executed on the domain.', 'graph shapes (cycles, zero costs, ties, unordered states), weights, repeated solves', 'inconsistent heuristics: only validity'),
'C09': ('Shortest paths; learned policies are executed.', 'as C08, plus depth limits', 'optimality on cyclic graphs is a known finding'),
'C10': ('SimpleGreedy: exact expected one-step reward. POMCP: the belief is recomputed exactly from the executed actions and observations; every simulated particle must be in its support; clear best actions must be chosen.', 'belief histories', 'close calls of POMCP'),
'C11': ('Breadth-first exploration of the generated domain; the graph domain is stepped next to the original.', 'limits, several starts, merges', ''),
'C12': ('Dijkstra, plus ASan/UBSan on the headers.', 'clear/resolve sequences, large graphs, off-plan queries', 'parallel policies'),
'C13': ('Exact value iteration and policy evaluation (unreachable goals included), plus sanitizers.', 'cycles, dead ends, discounts, repeated solves, act-in-between', 'LRTDP labels under a depth limit'),
'C14': ('The expansion log is replayed against the definition of the width search (novelty tables, orderings, pruning), plans executed; sanitizers.', 'random features, orderings', ''),
'C15': ('Exact optimal values (RIW on acyclic deterministic domains), exact bounds for the MCTS values and visit counts; simulations are monitored by the environment; sanitizers.', 'online episodes with garbage collection, all option combinations', 'time budgets'),
'C16': ('Membership by construction of members and near-misses; JSON and gym round trips compared exactly; enumerations compared with the generating description.', 'nested spaces', ''),
'C17': ('A fresh environment replaying the same actions is the reference for every wrapper (trees, replays, interleavings); feature vectors against their definition.', 'tree-shaped histories, every space kind', 'images drawn by environments'),
'C18': ('The rules of the games, written independently.', 'every transition of every small instance', 'plots'),
'C19': ('Independent replay of the action log from the problem data gives the expected state after each transition.', 'uncertain, preemptive, conditional, skilled, in-place histories', 'actions outside the applicable ones unless refused'),
'C20': ('An independent serial schedule generation scheme and constraint evaluator.', 'edit histories, calendars, resumed and ongoing schedules, uncertain versions', 'partial schedules of infeasible decodings'),
'C21': ('Exact Pareto filter, legality of every mutation result, exact undo, local searches recorded at every evaluation.', 'long mutation chains and searches', 'which of two ties is kept'),
'C22': ('Every individual evaluated is recorded and checked for legality; the result must be the best recorded; budget counted.', 'random operators and rates', 'operators outside their DEAP preconditions'),
'C23': ('Independent feasibility evaluator and exhaustive search for the optimum; neighbourhood constraints compared with what they fixed.', 'partial solutions, calendars, multi-mode', 'absent minizinc files (multi-no-bool, single-preemptive, multi-calendar-boxes); LP on infeasible models; infeasible instances for the pile; LP_MRCPSP ignores task_mode/start_together; CPM get_first_time_to_do_one_task; Gurobi classes'),
'C24': ('Independent tour lengths, enumeration of all tours.', 'move chains with undo, encodings', 'plots; the dead script tsp/solver.py; the 30 s metaheuristic'),
'C25': ('Independent sums, enumeration of all selections.', 'arbitrary item indexes, forced recomputation, mixed moves', 'LP solve_lns (plots); Gurobi; generic flips without force_recompute_values'),
'C26': ('Independent counts; chromatic number by exhaustive search; cliques by enumeration.', 'named nodes, components, isolated nodes', 'Gurobi; self-loops; edgeless graphs for CP'),
'C27': ('Independent sums; enumeration of all assignments.', 'tight capacities, pruning, equal places', 'Gurobi; zero demands with CP; models made infeasible by pruning'),
'C28': ('Independent legs and loads; exhaustive search over partitions and permutations.', 'several depots, different ends, overloads', 'the vrp_cp script (not importable); Gurobi; plots; stored lengths after an in-place edit'),
"C29": ('An independent serial scheduler with worker priorities and an independent rule checker; exhaustive and random serial schedules as bounds.', 'one-worker rule, calendars, several modes, zero durations, spread and unordered identifiers, edits, neighbourhoods solved with the base schedule pinned', 'projects that do not fit in their calendars (the calendar greedy solver never ends on them); exact_skills_need; calendars, the one-worker rule and several skills per worker in the linear model; the neighbourhoods of the linear search; plots'),
"C30": ('The project data itself and an independent serial scheduler and feasibility checker; replays compared with the planned dates.', 'calendars ending at the horizon, several modes, ten and more workers, instantaneous tasks, chains of conversions, sampled instances', 'instantaneous tasks needing renewable resources; the horizon multiplier of models'),
"C31": ('The set of actions each rule allows, computed from the project data and the sets of tasks of the state; independent feasibility checker; rollouts on a twin domain for the meta-policy.', 'late tasks under uncertain durations, permutations without a plan, calendars, conditional tasks, one domain object in two roles, several workers', 'the LNS bindings; plans with calendars of units in the CP model; the meta-policy on uncertain projects'),
"C32": ('Expected costs by backward induction on the transition table; the log of the policy calls of each sampled run; features from the project data, with an own critical path; own serial schedule generation of the sorted tasks.', 'dead ends, loops, impossible outcomes, ties between priorities, zero durations, uncertain durations', 'exact schedules when a rule ranks a task before its own predecessors (planning again at later dates may then legitimately differ from the first plan); multi-mode projects under priority rules'),
"C33": ('The tables the characteristics are built from; transitive closures and counting written independently; a timeline that counts active dates.', 'durations depending on progress, pauses without resumption, conditions, cycles, empty structures', 'preallocations, which the library never uses'),
"C34": ('An interpreter of program graphs written independently; the log of every evaluation, episode and action recorded by the evaluator and the environment; affine maps recomputed from the bounds; the random search re-run by hand on a copy of the environment; Q-learning replayed over the recorded transitions.', 'several rows, several outputs, constants, mutation after running, parallel evaluation, spaces of one value, unbounded observations, nested spaces, states at the upper bounds, 15000 short episodes', 'saving through `save`/`load` (empty in these solvers), recurrent links, images'),
"C35": ('A stand-in for the compiled module that accepts exactly the arguments and methods the bindings declare, follows the protocol of the C++ adapter (direct calls; launch, notification, collection) and plans exactly; every call it receives is compared with the one the user-visible call must cause.', 'nine solvers, options at and off their defaults, missing functors, states without a solution, lost plans, several solves, pipes and shared memory, with and without a with statement', 'the compiled search itself (C12-C15); the C++ binding code, whose headers (pybind11) are not installed; a solver given two different domain factories'),
"C36": ('ThreadSanitizer on the real headers, whose parallel loops run on real threads (a stand-in of the parallel for_each of the standard library that adds no synchronisation and injects delays at every domain call); the exact judges of C12 to C15 for the answers; one environment per parallel domain, each followed on its own.', '2 to 6 threads or domains, five delay levels, self-loops, parallel edges, repeated searches, garbage collection, debug logs on', 'optimality of parallel LRTDP (a trial may label a state while another updates its successors) and RIW (a state reached by two simulations at once may be pruned); the OpenMP build; the Python side of parallel domains (C35)'),
"C37": ('AddressSanitizer, UndefinedBehaviorSanitizer and the debug mode of the standard containers on the real headers; reference models (bounded deques, normalised weights, dictionaries, counters of calls) for every printed answer; sampled frequencies within 8 standard deviations.', 'lengths 0 and unbounded, own elements pushed back, long strings, duplicated and zero weights, 90-value distributions, three container kinds, four domain kinds, OpenMP and thread builds of the policies', 'dynamics.hh, value.hh, ActionDomain and UnrestrictedActionDomain (they do not compile when instantiated); distributions whose weights are all zero'),
"C38": ('The evaluation of a tour recomputed from the instance, an independent validity rule, the difference between consecutive solutions of a mutation history; a serial schedule generator for every (model, test instance) pair; the data given to the plotting library.', 'instances of 2 to 12 cities, empty, partial and full knapsacks, improvement-only and exhaustive modes, crossings, four aggregations a priori and a posteriori, results in both senses', 'the look of the plots; distances other than Euclidean (the parser accepts them, the evaluation is Euclidean whatever the type)'),
}

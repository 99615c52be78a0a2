From bf449d3aa605c76d39b402a03d8620d475f20db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 001/243] fix: domains with an unbounded or one-step history
 keep their memory across steps

Environment._step compared the maximum memory length with 1: an unbounded
history (None) raised a TypeError, and a FiniteHistory of length 1 had its
memory replaced by a bare state.
---
 skdecide/builders/domain/dynamics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..bb023ec 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import functools
 from typing import Optional
 
-from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
+from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, Memory, TransitionValue, \
     EnvironmentOutcome, TransitionOutcome, autocastable
 
 __all__ = ['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions']
@@ -75,10 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
-            self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        if self.T_memory == Memory:  # (finite) history: the memory's own maxlen bounds its length (if any)
             self._memory.append(next_state)
+        elif self._get_memory_maxlen() == 1:
+            self._memory = next_state
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
 
-- 
2.43.0


From c4b79bf21609b7450f8d9b610d7c99d9e677d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 002/243] fix: set_memory does not let later steps grow the
 caller's history

The given history object was stored as is and appended to by each step, which
modified the caller's memory and ignored the domain's maximum memory length.
---
 skdecide/builders/domain/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index bb023ec..f7abbe6 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -155,6 +155,8 @@ class Simulation(Environment):
             simulation_domain._step(my_action)
         ```
         """
+        if self.T_memory == Memory:  # keep a copy (appended to by next steps) with the right maximum length
+            memory = Memory(memory, maxlen=self._get_memory_maxlen())
         self._memory = memory
 
     @autocastable
-- 
2.43.0


From 1510bc7ceff8eabb8afc031d56f11312824f08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 003/243] fix: an empty space contains nothing instead of
 raising

EmptySpace inherited the abstract Space.contains(), so is_enabled_event()
raised NotImplementedError on every domain whose events are only actions.
---
 skdecide/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..e537b3d 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -108,6 +108,9 @@ class EmptySpace(Space[T]):
     def get_elements(self) -> Iterable[T]:
         return ()
 
+    def contains(self, x: T) -> bool:
+        return False
+
 
 class SamplableSpace(Space[T]):
     """A space which can be sampled (uniformly randomly)."""
-- 
2.43.0


From 3073c25156a4c78addf1424d2f9d3929bca14da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 004/243] fix: is_action works for multi-agent domains

The action space of a multi-agent domain is one space per agent, on which
contains() was called directly (AttributeError).
---
 skdecide/builders/domain/events.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/domain/events.py b/skdecide/builders/domain/events.py
index 12149e7..4746964 100644
--- a/skdecide/builders/domain/events.py
+++ b/skdecide/builders/domain/events.py
@@ -189,7 +189,11 @@ class Events:
         # Returns
         True if the event is an action (False otherwise).
         """
-        return self._get_action_space().contains(event)
+        action_space = self._get_action_space()
+        if self.T_agent == Union:
+            return action_space.contains(event)
+        else:  # StrDict
+            return any(space.contains(event) for space in action_space.values())
 
     @autocastable
     def get_applicable_actions(self, memory: Optional[D.T_memory[D.T_state]] = None) -> D.T_agent[Space[D.T_event]]:
-- 
2.43.0


From ad16a854916c197e0cb0eec53d5057ca40ca9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 005/243] fix: rollout_episode resets the domain when no
 starting memory is given

The initial observation was left undefined (UnboundLocalError).
---
 skdecide/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..c828307 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -306,8 +306,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
-- 
2.43.0


From 474d162d820640e7c0e6d2a4cb14e50160834bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 006/243] fix: rollout runs all episodes when saving results

The function returned right after saving the first episode.
---
 skdecide/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index c828307..80aef27 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -216,6 +216,8 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
 
             now = datetime.datetime.now()
             str_timestamp = now.strftime("%Y%m%dT%H%M%S")
+            if num_episodes > 1:
+                str_timestamp += f'_{i_episode + 1}'
             directory = os.path.join(save_result_directory, str_timestamp)
             os.mkdir(directory)
             try:
@@ -234,7 +236,8 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             except TypeError:
                 logger.error("Observation is not serializable")
 
-            return directory
+    if save_result_directory is not None and num_episodes > 0:
+        return directory
 
 
 def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] = None,
-- 
2.43.0


From 03f803685c4d12db500afb8cca2a8486dbfd343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 007/243] fix: shared-memory domains return several results of
 a multi-array type

---
 skdecide/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..09de2cc 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -666,7 +666,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                         res_name = type(r).__name__
                         (start, end) = shm_registers[res_name]
                         if res_name in type_counters:
-                            type_counters[res_name] += 1
+                            type_counters[res_name] += shm_sizes[res_name]
                             k = type_counters[res_name]
                             if (k >= end):
                                 raise IndexError('''No more available register for type {}. 
-- 
2.43.0


From eb8c8958784bd05a7979c6cf0c699bd8fa4db532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 008/243] fix: a failed shared-memory job does not return its
 own arguments

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 09de2cc..c5be024 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -685,6 +685,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                 if ipc_conn is not None:
                     pusher.send(b'0')  # send success
             except Exception as e:
+                shm_params[i][:] = [-1] * len(shm_params[i])  # a failed job has no result
                 if int(shm_lambdas[i].value) == -1:
                     logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
                 else:
-- 
2.43.0


From d0c4b1b513e776f7b81c32d68c9f423955b9fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 009/243] fix: get_result does not block on a failed job of a
 notifying domain

---
 skdecide/domains.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index c5be024..73846e2 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -550,8 +550,7 @@ def _launch_domain_server_(domain_factory, lambdas, i,
                 logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
+                conn.send(str(e))  # send failure (!= 0)
 
 class PipeParallelDomain(ParallelDomain):
     """This class can be used to create and launch n domains in separate processes.
-- 
2.43.0


From 9fa282d277eb8eaf643b8119b664a4358b797d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 010/243] fix: two threads asking for a free domain never get
 the same one

---
 skdecide/domains.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 73846e2..ddb29cc 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -419,10 +419,11 @@ class ParallelDomain:
     def wake_up_domain(self, i=None):
         if i is None:
             while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
+                with self._active_domains.get_lock():  # test and set at once
+                    for j, v in enumerate(self._active_domains):
+                        if not v:
+                            self._active_domains[j] = True
+                            return j
         else:
             self._active_domains[i] = True
             return i
-- 
2.43.0


From 2b1aede202d147361d3c8b432bf0705071f9680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 011/243] fix: a job that cannot be launched does not keep its
 domain busy for ever

---
 skdecide/domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index ddb29cc..1e335db 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -576,6 +576,7 @@ class PipeParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             self._waiting_jobs[mi].send((function, args))
@@ -585,6 +586,8 @@ class PipeParallelDomain(ParallelDomain):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
                 logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+            if mi is not None:
+                self._active_domains[mi] = False  # nothing was launched
     
     def get_result(self, i):
         self._waiting_jobs[i].recv()
@@ -755,6 +758,7 @@ class ShmParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             if isinstance(function, str):  # function is a domain class' method
@@ -795,6 +799,8 @@ class ShmParallelDomain(ParallelDomain):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
                 logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+            if mi is not None:
+                self._active_domains[mi] = False  # nothing was launched
     
     def get_result(self, i):
         with self._conditions[i]:
-- 
2.43.0


From 7294e1bd6be322b3f5f9a36d440a9db56c859acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 012/243] fix: LazyAstar solves a problem whose source is
 already a goal

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..b9e1d52 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -85,8 +85,9 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)]
+                if parent is not None:  # the source may already be a goal
+                    path.insert(0, (parent, label))
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
-- 
2.43.0


From 28f5b6d11c11a1221abdb237f544bb853e39594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 013/243] fix: solving again with LazyAstar forgets the
 previous plan and values

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index b9e1d52..61293a3 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -116,6 +116,8 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
                 enqueued[neighbor] = ncost, h
                 push(queue, (ncost + (self._weight * h), next(c), neighbor, ncost, curnode, lbl))
         self._policy = {}
+        self._values = {}
+        self._plan = []
         for node, label in path:
             self._policy[node] = label['action'] if label is not None else None
             self._values[node] = estim_total - enqueued[node][0]
-- 
2.43.0


From 1e4c1255d37631506d03ba28f001b49aa8419ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 014/243] fix: LRTAstar tells which observations its policy is
 defined for

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..c080d9a 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
-- 
2.43.0


From cc51efb6e0500f0fff1db0d02786ba3e86ec5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 015/243] fix: LRTAstar solves a problem whose start is already
 a goal

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index c080d9a..2d8ed98 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -127,5 +127,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
+        if current_state not in self.values:  # the start may already be a goal
+            self.values[current_state] = self._heuristic(self._domain, current_state)
         cumulated_reward += self.values[current_state]
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From 508696f12cb0f973dee81ea2739d7d45d5f922fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 016/243] fix: solving again with LRTAstar forgets the previous
 policy

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 2d8ed98..f9db137 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -56,6 +56,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
         self.values = {}
+        self._policy = {}
         iteration = 0
         best_cost = float('inf')
         if self._from_state is None:
-- 
2.43.0


From b2180f726b30bb15ebc9db6e060768d0089e37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 017/243] fix: LRTAstar keeps a plan reaching a goal over a
 trial cut at max_depth

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index f9db137..46cdf94 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -59,6 +59,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         self._policy = {}
         iteration = 0
         best_cost = float('inf')
+        goal_found = False
         if self._from_state is None:
             # get initial observation from domain (assuming DeterministicInitialized)
             from_observation = self._domain.get_initial_state()
@@ -70,8 +71,11 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             dead_end, cumulated_cost, current_roll, list_action = self.doTrial(from_observation)
             if self._verbose:
                 print("iter ", iteration, '/', self.max_iter, " : dead end, ", dead_end, " cost : ", cumulated_cost)
-            if not dead_end and cumulated_cost < best_cost:
+            reached_goal = self._domain.is_goal(current_roll[-1][0])
+            # a trial cut at max_depth never replaces a plan which reaches a goal
+            if not dead_end and (cumulated_cost < best_cost if reached_goal == goal_found else reached_goal):
                 best_cost = cumulated_cost
+                goal_found = reached_goal
                 # best_path = current_roll
                 for k in range(len(current_roll)):
                     self._policy[current_roll[k][0]] = current_roll[k][1]["action"]
-- 
2.43.0


From 259ba12f63bc2a3df2d080e1bc5c520e0059b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 018/243] fix: SimpleGreedy handles values independent of the
 next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From ee3767120ac9a3c65f12a67e980b1178de2e5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 019/243] fix: the action space of a graph domain contains its
 actions

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c8e2be1..c7295ab 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -14,7 +14,7 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
         return random.choice(self.l)
 
     def contains(self, x: T) -> bool:
-        pass
+        return x in self.l
 
     def __init__(self, l: List[object]):
         self.l = l
-- 
2.43.0


From 276ab6a9bb741b7c08d4cf543e7c8e427a8cc47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 020/243] fix: GraphDomain is usable as the Markovian domain it
 declares to be

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c7295ab..1364d56 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -133,27 +133,27 @@ class GraphDomain(Domain,
         self.attribute_weight = attribute_weight
 
     def _get_next_state(self, memory: D.T_memory[D.T_state], event: D.T_event) -> D.T_state:
-        return self.next_state_map[memory[-1]][event]
+        return self.next_state_map[memory][event]
 
     def _get_transition_value(self, memory: D.T_memory[D.T_state],
                               event: D.T_event,
                               next_state: Optional[D.T_state] = None) \
             -> TransitionValue[D.T_value]:
-        return TransitionValue(cost=self.next_state_attributes[memory[-1]][event][self.attribute_weight])
+        return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
-    def is_terminal(self, state: D.T_state) -> bool:
+    def _is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
 
     def _get_action_space_(self) -> Space[D.T_event]:
         return ImplicitSpace(lambda x: True)
 
     def _get_applicable_actions_from(self, memory: D.T_memory[D.T_state])-> Space[D.T_event]:
-        return ActionSpace(list(self.next_state_map[memory[-1]].keys()))
+        return ActionSpace(list(self.next_state_map[memory].keys()))
 
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
 
-    def is_goal(self, state: D.T_state) -> bool:
+    def _is_goal(self, state: D.T_state) -> bool:
         return state in self.targets
 
     def _get_observation_space_(self) -> Space[D.T_observation]:
-- 
2.43.0


From 744b077b55be538177b71398f993128703b45453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 021/243] fix: GraphDomainUncertain returns the distribution of
 next states, not one outcome

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 1364d56..d78384d 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -2,7 +2,8 @@ from __future__ import annotations
 import matplotlib.pyplot as plt
 from collections import defaultdict
 from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
-from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
+from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, \
+    Distribution, DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
     FullyObservable, PositiveCosts, UncertainTransitions
@@ -93,7 +94,7 @@ class GraphDomainUncertain(Domain,
                                      action: D.T_agent[D.T_concurrency[D.T_event]]) -> Distribution[D.T_state]:
         possible_states = [(s, self.next_state_map[memory][action][s][0])
                            for s in self.next_state_map[memory][action]]
-        return random.choices(possible_states, weights=[p[1] for p in possible_states], k=1)[0]
+        return DiscreteDistribution(possible_states)
 
 
 
-- 
2.43.0


From f68a19c2c3f4bf267f7f8063f775c7c43c7236a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 022/243] fix: graph explorations without limits do not fail

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py        | 6 +++---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py  | 6 +++---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index cb7077b..b6806cc 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -12,9 +12,9 @@ class DFSExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any=None,
                            transition_extractor=None,
diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 8269fed..9acd2ea 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -19,9 +19,9 @@ class DFSExploration(GraphExploration):
         self.c = count()
         if score_function is None:
             self.score_function = lambda s: (next(self.c))
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any = None) -> GraphDomainUncertain:
         if init_state is None:
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 467fe70..e917d13 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -13,9 +13,9 @@ class FullSpaceExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any=None) -> GraphDomain:
         next_state_map = {}
-- 
2.43.0


From 1d5db50b28112333d95a8b06b55536295b6c6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 023/243] fix: exploring an uncertain domain keeps the
 transitions towards known states

---
 .../solver/graph_explorer/DFS_Uncertain_Exploration.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 9acd2ea..6a214ac 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -65,14 +65,16 @@ class DFSExploration(GraphExploration):
                         next_state_map[s] = {}
                     if action not in next_state_map[s]:
                         next_state_map[s][action] = {}
-                    if prob != 0 and succ not in result:
+                    if prob == 0:
+                        continue
+                    nb_edges += 1
+                    cost = domain.get_transition_value(s, action, succ)
+                    next_state_map[s][action][succ] = (prob, cost.cost)
+                    if succ not in result:
                         nb_states += 1
-                        nb_edges += 1
                         result.add(succ)
                         heappush(stack, (self.score_function(succ),
                                          succ))
-                        cost = domain.get_transition_value(s, action, succ)
-                        next_state_map[s][action][succ] = (prob, cost.cost)
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
             if (nb_states > self.max_nodes) \
-- 
2.43.0


From 997ec286237794db6bb6fcf0362d9b7fe91c1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 024/243] fix: DFSExploration queries the Markovian domain with
 states

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index b6806cc..655d083 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -38,7 +38,7 @@ class DFSExploration(GraphExploration):
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
-                next = self.domain.get_next_state(Memory([vertex]), action)
+                next = self.domain.get_next_state(vertex, action)
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 else:
-- 
2.43.0


From 8dad3e0df5163a65d5e2385b18213d41b0a88629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 025/243] fix: FullSpaceExploration explores further than the
 initial state

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index e917d13..617f35c 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -33,7 +33,8 @@ class FullSpaceExploration(GraphExploration):
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
-                if next not in next_state_map:
+                new = next not in next_state_map
+                if new:
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
@@ -49,7 +50,7 @@ class FullSpaceExploration(GraphExploration):
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-                    if next not in next_state_map:
+                    if new:
                         stack.append((next, path+[next]))
             if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
                 or (nb_edges > self.max_edges and nb_path >= 1):
-- 
2.43.0


From c0aa9989ef98bf698e0f0f0130c4c9d8ba007e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 026/243] fix: FullSpaceExploration queries the Markovian
 domain with states

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 617f35c..218d36c 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -41,10 +41,10 @@ class FullSpaceExploration(GraphExploration):
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 next_state_map[vertex][action] = next
-                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(Memory([vertex]),
+                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(vertex,
                                                                                                   action,
                                                                                                   next).cost,
-                                                         "reward": self.domain.get_transition_value(Memory([vertex]),
+                                                         "reward": self.domain.get_transition_value(vertex,
                                                                                                     action,
                                                                                                     next).reward}
                 if self.domain.is_goal(next):
-- 
2.43.0


From ff897a83280a5d2ec3f27520e7fd9da46285cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 027/243] fix: explored graph domains know which attribute is
 their cost

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py       | 2 +-
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 655d083..11e2ecb 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -68,6 +68,6 @@ class DFSExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           None, 'cost')
 
 
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 218d36c..6a10c0e 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -57,7 +57,7 @@ class FullSpaceExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           None, 'cost')
 
 
 def reachable_states(self, s0: Any):
-- 
2.43.0


From dcc70e02d086f55e084ef33ddb90a9d14c12a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 028/243] fix: POMCP updates its belief with the last action
 before filtering it with the new observation

---
 skdecide/hub/solver/pomcp/pomcp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/solver/pomcp/pomcp.py b/skdecide/hub/solver/pomcp/pomcp.py
index 0ef4564..e6a1bf8 100644
--- a/skdecide/hub/solver/pomcp/pomcp.py
+++ b/skdecide/hub/solver/pomcp/pomcp.py
@@ -53,7 +53,12 @@ class POMCP(Solver, DeterministicPolicies):
         # Get the next action from the solver's current policy:
         # this corresponds to the top-level Search procedure in the POMCP paper
 
-        # Since we have now received a new observation, update our
+        # First, update each state in the belief with the
+        # effects of the last action taken (if any):
+        if self._act_history[-1] is not None:
+            self._belief = self._update_belief_state(self._belief, self._act_history[-1])
+
+        # Then, since we have now received a new observation, update our
         # belief state with this information; note that obs may
         # depend on the last action taken:
         self._belief = self._filter_belief_state(self._belief, self._act_history[-1], observation)
@@ -61,10 +66,6 @@ class POMCP(Solver, DeterministicPolicies):
         # Record the added observation:
         self._obs_history = self._obs_history + (observation,)
 
-        # Then, update each state in the filtered belief with the
-        # effects of the last action taken:
-        self._belief = self._update_belief_state(self._belief, self._act_history[-1])
-        
         # Now, we can make a decision from the new belief state:
         iterations = 0
         while iterations < self._max_iterations:  # or some other cut-off
-- 
2.43.0


From 896279b58253c7ae397565d930826a19134ff400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 029/243] fix: POMCP simulates the observation of the next
 state

---
 skdecide/hub/solver/pomcp/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/pomcp/pomcp.py b/skdecide/hub/solver/pomcp/pomcp.py
index e6a1bf8..5a52e36 100644
--- a/skdecide/hub/solver/pomcp/pomcp.py
+++ b/skdecide/hub/solver/pomcp/pomcp.py
@@ -152,7 +152,7 @@ class POMCP(Solver, DeterministicPolicies):
             # simulate outcome of this action:
             new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
             TV = self._domain.get_transition_value(Memory([state]), action, new_state)
-            new_obs = self._domain.get_observation_distribution(state, action).sample()
+            new_obs = self._domain.get_observation_distribution(new_state, action).sample()
             if self._domain.is_goal(new_obs):
                 s_cost = TV.cost
             else:
@@ -174,7 +174,7 @@ class POMCP(Solver, DeterministicPolicies):
         assert action is not None
         new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
         TV = self._domain.get_transition_value(Memory([state]), action, new_state)
-        new_obs = self._domain.get_observation_distribution(state, action).sample()
+        new_obs = self._domain.get_observation_distribution(new_state, action).sample()
         if self._domain.is_goal(new_obs):
             s_cost = TV.cost
         else:
-- 
2.43.0


From c676b97d8149d73c6309f3778bef3577f793ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 030/243] fix: POMCP always chooses an action, even when all
 look very bad

---
 skdecide/hub/solver/pomcp/pomcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/pomcp/pomcp.py b/skdecide/hub/solver/pomcp/pomcp.py
index 5a52e36..0167429 100644
--- a/skdecide/hub/solver/pomcp/pomcp.py
+++ b/skdecide/hub/solver/pomcp/pomcp.py
@@ -107,7 +107,7 @@ class POMCP(Solver, DeterministicPolicies):
         else it's just the action with min expected cost.
         """
         best_action = None
-        best_action_score = self._VLV
+        best_action_score = float('inf')
         if w > 0:
             parent = self._tree[(h_act, h_obs)]
         for action in self._domain.get_action_space().get_elements():
-- 
2.43.0


From c63caa92878200126f19c1d41db81b013537dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 031/243] fix: graph domains declare the single-agent
 sequential level they are written at

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index d78384d..bfb2e61 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -5,7 +5,7 @@ from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
 from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, \
     Distribution, DiscreteDistribution
 import random
-from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
+from skdecide.builders.domain import SingleAgent, Sequential, DeterministicTransitions, Actions, Goals, Markovian, \
     FullyObservable, PositiveCosts, UncertainTransitions
 from skdecide import Domain, DeterministicPlanningDomain, D
 import networkx as nx
@@ -25,6 +25,8 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
 
 
 class GraphDomainUncertain(Domain,
+                           SingleAgent,
+                           Sequential,
                            UncertainTransitions,
                            Actions,
                            Goals,
@@ -99,6 +101,8 @@ class GraphDomainUncertain(Domain,
 
 
 class GraphDomain(Domain,
+                  SingleAgent,
+                  Sequential,
                   DeterministicTransitions,
                   Actions,
                   Goals,
-- 
2.43.0


From e981a0399bf15fa8e2328e62bad12d93dcf089e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 032/243] fix: C++ A* never changes the key of a node already
 in the priority queue

---
 cpp/src/hub/solver/astar.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cpp/src/hub/solver/astar.hh b/cpp/src/hub/solver/astar.hh
index de06afb..08597c2 100644
--- a/cpp/src/hub/solver/astar.hh
+++ b/cpp/src/hub/solver/astar.hh
@@ -65,14 +65,15 @@ public :
             root_node.fscore = _heuristic(_domain, root_node.state);
 
             // Priority queue used to sort non-goal unsolved tip nodes by increasing cost-to-go values (so-called OPEN container)
-            std::priority_queue<Node*, std::vector<Node*>, NodeCompare> open_queue;
-            open_queue.push(&root_node);
+            // (entries keep the fscore they were pushed with, since nodes' fscores can be improved while the nodes are in the queue)
+            std::priority_queue<QueueEntry, std::vector<QueueEntry>, QueueEntryCompare> open_queue;
+            open_queue.push(std::make_pair(root_node.fscore, &root_node));
 
             // Set of states for which the g-value is optimal (so-called CLOSED container)
             std::unordered_set<Node*> closed_set;
 
             while (!open_queue.empty()) {
-                auto best_tip_node = open_queue.top();
+                auto best_tip_node = open_queue.top().second;
                 open_queue.pop();
 
                 // Check that the best tip node has not already been closed before
@@ -136,7 +137,7 @@ public :
                         neighbor.fscore = tentative_gscore + _heuristic(_domain, neighbor.state);
                         neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
                         _execution_policy.protect([&open_queue, &neighbor]{
-                            open_queue.push(&neighbor);
+                            open_queue.push(std::make_pair(neighbor.fscore, &neighbor));
                         });
                         if (_debug_logs) spdlog::debug("Update neighbor node: " + neighbor.state.print() +
                                                        ", gscore=" + StringConverter::from(neighbor.gscore) +
@@ -205,9 +206,11 @@ private :
         };
     };
 
-    struct NodeCompare {
-        bool operator()(Node*& a, Node*& b) const {
-            return (a->fscore) > (b->fscore); // smallest element appears at the top of the priority_queue => cost optimization
+    typedef std::pair<double, Node*> QueueEntry;
+
+    struct QueueEntryCompare {
+        bool operator()(const QueueEntry& a, const QueueEntry& b) const {
+            return (a.first) > (b.first); // smallest element appears at the top of the priority_queue => cost optimization
         }
     };
 
-- 
2.43.0


From da4e94f231fc56feb9f8f5578a2042bd98eebe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 033/243] fix: C++ A* can be called again from other states
 without corrupting previous solutions

---
 cpp/src/hub/solver/astar.hh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cpp/src/hub/solver/astar.hh b/cpp/src/hub/solver/astar.hh
index 08597c2..8802c27 100644
--- a/cpp/src/hub/solver/astar.hh
+++ b/cpp/src/hub/solver/astar.hh
@@ -61,6 +61,10 @@ public :
                 return;
             }
             Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+            // Forget the g-values of previous searches from other states
+            for (const Node& n : _graph) {
+                const_cast<Node&>(n).gscore = std::numeric_limits<double>::infinity(); // we don't change the real key (Node::state) so we are safe
+            }
             root_node.gscore = 0;
             root_node.fscore = _heuristic(_domain, root_node.state);
 
@@ -94,7 +98,7 @@ public :
 
                     while (current_node != &root_node) {
                         Node* parent_node = std::get<0>(current_node->best_parent);
-                        parent_node->best_action = &std::get<1>(current_node->best_parent);
+                        parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
                         parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
                         parent_node->solved = true;
                         current_node = parent_node;
@@ -134,10 +138,12 @@ public :
 
                     if ((i.second) || (tentative_gscore < neighbor.gscore)) {
                         neighbor.gscore = tentative_gscore;
-                        neighbor.fscore = tentative_gscore + _heuristic(_domain, neighbor.state);
+                        // the fscore of a solved node is its cost-to-go (computed by a previous search)
+                        double estimate = tentative_gscore + (neighbor.solved ? neighbor.fscore : _heuristic(_domain, neighbor.state));
+                        if (!(neighbor.solved)) { neighbor.fscore = estimate; }
                         neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                        _execution_policy.protect([&open_queue, &neighbor]{
-                            open_queue.push(std::make_pair(neighbor.fscore, &neighbor));
+                        _execution_policy.protect([&open_queue, &neighbor, &estimate]{
+                            open_queue.push(std::make_pair(estimate, &neighbor));
                         });
                         if (_debug_logs) spdlog::debug("Update neighbor node: " + neighbor.state.print() +
                                                        ", gscore=" + StringConverter::from(neighbor.gscore) +
@@ -191,7 +197,7 @@ private :
         std::tuple<Node*, Action, double> best_parent;
         double gscore;
         double fscore;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
         Node(const State& s)
-- 
2.43.0


From ba941cb5ecb7b44ec09fea2ff78421d2069935e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 034/243] fix: C++ AO* handles dead-end states instead of
 dereferencing a null action

---
 cpp/src/hub/solver/aostar.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index 80e4e85..9224e33 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -139,8 +139,10 @@ public :
                         }
                         // update solved field
                         fs->solved = true;
-                        for (const auto& ns : fs->best_action->outcomes) {
-                            fs->solved = fs->solved && std::get<2>(ns)->solved;
+                        if (fs->best_action != nullptr) { // otherwise dead end: nothing left to expand
+                            for (const auto& ns : fs->best_action->outcomes) {
+                                fs->solved = fs->solved && std::get<2>(ns)->solved;
+                            }
                         }
                         // update new frontier
                         _execution_policy.protect([&fs, &new_frontier]{
-- 
2.43.0


From c8022a5f084e3997a038ee7d3dbbaa2ef79c8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 035/243] fix: C++ AO* remembers that a goal it was started
 from is a goal

---
 cpp/src/hub/solver/aostar.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index 9224e33..affe8b5 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -60,10 +60,14 @@ public :
             auto start_time = std::chrono::high_resolution_clock::now();
 
             auto si = _graph.emplace(s);
-            if (si.first->solved || _goal_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
+            StateNode& root_node = const_cast<StateNode&>(*(si.first)); // we won't change the real key (StateNode::state) so we are safe
+            if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
+                return;
+            } else if (_goal_checker(_domain, s)) { // later searches must know that this node is a goal
+                root_node.solved = true;
+                root_node.best_value = 0.0;
                 return;
             }
-            StateNode& root_node = const_cast<StateNode&>(*(si.first)); // we won't change the real key (StateNode::state) so we are safe
             std::priority_queue<StateNode*, std::vector<StateNode*>, StateNodeCompare> q; // contains only non-goal unsolved tip nodes
             q.push(&root_node);
 
-- 
2.43.0


From dc0c53502f710e2295b60619c225cbe963c235dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 036/243] fix: C++ ILAO* remembers that a goal it was started
 from is a goal

---
 cpp/src/hub/solver/ilaostar.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 10a8a64..c9fa05d 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -69,6 +69,11 @@ public :
             }
 
             if (root_node.solved || _goal_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
+                if (!(root_node.solved)) { // later searches must know that this node is a goal
+                    root_node.goal = true;
+                    root_node.solved = true;
+                    root_node.best_value = 0.0;
+                }
                 if (_debug_logs) spdlog::debug("Found goal state " + s.print());
                 return;
             }
-- 
2.43.0


From d8345902ae7220447409b730de58cd1448a99713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 037/243] fix: C++ ILAO* handles dead-end states instead of
 looping or dereferencing a null action

---
 cpp/src/hub/solver/ilaostar.hh | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index c9fa05d..0ecd85f 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -342,8 +342,11 @@ private :
             }
         }
 
+        if (s.best_action == nullptr) {
+            s.solved = true; // dead end: nothing left to expand
+        }
         s.best_value = best_value;
-        s.residual = std::fabs(best_value - record_value);
+        s.residual = (best_value == record_value) ? 0.0 : std::fabs(best_value - record_value); // values can be infinite
         return s.residual;
     }
 
@@ -367,8 +370,10 @@ private :
         bool record = s.reach_tip_node;
         bool reach_tip_node = false;
 
-        for (const auto& o : s.best_action->outcomes) {
-            reach_tip_node = reach_tip_node || (std::get<2>(o)->reach_tip_node);
+        if (s.best_action != nullptr) {
+            for (const auto& o : s.best_action->outcomes) {
+                reach_tip_node = reach_tip_node || (std::get<2>(o)->reach_tip_node);
+            }
         }
 
         if (_debug_logs) spdlog::debug("Unexpanded tip node reachability : " +
@@ -396,8 +401,10 @@ private :
         double record_value = s.first_passage_time;
         double first_passage_time = 0;
 
-        for (const auto& o : s.best_action->outcomes) {
-            first_passage_time += std::get<0>(o) * (1.0 + (std::get<2>(o)->first_passage_time));
+        if (s.best_action != nullptr) {
+            for (const auto& o : s.best_action->outcomes) {
+                first_passage_time += std::get<0>(o) * (1.0 + (std::get<2>(o)->first_passage_time));
+            }
         }
 
         if (_debug_logs) spdlog::debug("Mean first passage time : " +
@@ -436,8 +443,9 @@ private :
         //  can reach an unexpanded tip node)
         if (_debug_logs) spdlog::debug("Updating solved bits");
         std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this](auto& s){
-            s->solved = !(s->reach_tip_node) &&
-                        (((s->first_passage_time) * (s->residual)) < _epsilon);
+            s->solved = (s->best_action == nullptr) || // dead end
+                        (!(s->reach_tip_node) &&
+                         (((s->first_passage_time) * (s->residual)) < _epsilon));
             if (_debug_logs) spdlog::debug("Unexpanded tip node reachability and error bound of state " +
                                             s->state.print() + " : " + StringConverter::from(s->reach_tip_node) + " ; " +
                                             StringConverter::from(s->first_passage_time) + " * " +
-- 
2.43.0


From c642d5e3b0b4ca517a902d63bbf8c9531bb1d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 038/243] fix: C++ LRTDP remembers that a goal it was started
 from is a goal

---
 cpp/src/hub/solver/lrtdp.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index a093083..9fcbbb0 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -83,6 +83,11 @@ public :
             }
 
             if (root_node.solved || _goal_checker(_domain, s, nullptr)) { // problem already solved from this state (was present in _graph and already solved)
+                if (!(root_node.solved)) { // later searches must know that this node is a goal
+                    root_node.goal = true;
+                    root_node.solved = true;
+                    root_node.best_value = 0.0;
+                }
                 if (_debug_logs) spdlog::debug("Found goal state " + s.print());
                 return;
             }
-- 
2.43.0


From 45a1faa605a51d7445cebfcb5ec83418b518af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 039/243] fix: C++ LRTDP ends trials in goals and dead ends
 instead of updating them

---
 cpp/src/hub/solver/lrtdp.hh | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index 9fcbbb0..d5ac823 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -316,7 +316,7 @@ private :
             }
         }
 
-        if (_debug_logs) {
+        if (_debug_logs && best_action) {
             spdlog::debug("Greedy action of state " + s->state.print() + ": " +
                             best_action->action.print() + " with value " + StringConverter::from(best_value) +
                             ExecutionPolicy::print_thread());
@@ -329,7 +329,12 @@ private :
         if (_debug_logs) spdlog::debug("Updating state " + s->state.print() +
                                        ExecutionPolicy::print_thread());
         s->best_action = greedy_action(s, thread_id);
-        s->best_value = (double) s->best_action->value;
+        if (s->best_action == nullptr) { // dead end: nothing left to expand
+            s->best_value = std::numeric_limits<double>::infinity();
+            s->solved = true;
+        } else {
+            s->best_value = (double) s->best_action->value;
+        }
     }
 
     StateNode* pick_next_state(ActionNode* a) {
@@ -345,7 +350,8 @@ private :
 
     double residual(StateNode* s, const std::size_t* thread_id) {
         s->best_action = greedy_action(s, thread_id);
-        double res = std::fabs(s->best_value - s->best_action->value);
+        double value = (s->best_action != nullptr) ? (double) s->best_action->value : std::numeric_limits<double>::infinity();
+        double res = (s->best_value == value) ? 0.0 : std::fabs(s->best_value - value); // values can be infinite
         if (_debug_logs) spdlog::debug("State " + s->state.print() +
                                        " has residual " + StringConverter::from(res) +
                                        ExecutionPolicy::print_thread());
@@ -389,6 +395,9 @@ private :
                 }
 
                 ActionNode* a = cs->best_action; // best action updated when calling residual(cs, thread_id)
+                if (a == nullptr) { // dead end
+                    return;
+                }
                 for (const auto& o : a->outcomes) {
                     StateNode* ns = std::get<2>(o);
                     if (!(ns->solved) && (visited.find(ns) == visited.end())) {
@@ -433,22 +442,28 @@ private :
         StateNode* cs = s;
         std::size_t depth = 0;
         bool found_goal = false;
+        bool found_dead_end = false;
 
         while ((!_use_labels || !(cs->solved)) &&
-               !found_goal &&
+               !found_goal && !found_dead_end &&
                (elapsed_time(start_time) < _time_budget) &&
                (depth < _max_depth)) {
             depth++;
             visited.push(cs);
-            _execution_policy.protect([this, &cs, &found_goal, &thread_id](){
+            _execution_policy.protect([this, &cs, &found_goal, &found_dead_end, &thread_id](){
                 if (cs->goal) {
                     if (_debug_logs) spdlog::debug("Found goal state " + cs->state.print() +
                                                    ExecutionPolicy::print_thread());
                     found_goal = true;
+                    return;
                 }
 
                 update(cs, thread_id);
-                cs = pick_next_state(cs->best_action);
+                if (cs->best_action == nullptr) {
+                    found_dead_end = true;
+                } else {
+                    cs = pick_next_state(cs->best_action);
+                }
             }, cs->mutex);
         }
 
-- 
2.43.0


From 7d7ef0e86e4d4552e96c1acb8f314f84bd04e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 040/243] fix: C++ LRTDP never keeps pointers to nodes it has
 freed

---
 cpp/src/hub/solver/lrtdp.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index d5ac823..0ce2fe4 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -67,6 +67,7 @@ public :
     // previous search results)
     void clear() {
         _graph.clear();
+        _current_state = nullptr;
     }
 
     // solves from state s using heuristic function h
@@ -143,10 +144,9 @@ public :
                     spdlog::debug("Best action's outcomes:\n" + str);
                 }
             if (_online_node_garbage && _current_state) {
-                std::unordered_set<StateNode*> root_subgraph, child_subgraph;
-                compute_reachable_subgraph(_current_state, root_subgraph);
+                std::unordered_set<StateNode*> child_subgraph;
                 compute_reachable_subgraph(const_cast<StateNode*>(&(*si)), child_subgraph); // we won't change the real key (StateNode::state) so we are safe
-                remove_subgraph(root_subgraph, child_subgraph);
+                remove_unreachable(child_subgraph);
             }
             _current_state = const_cast<StateNode*>(&(*si)); // we won't change the real key (StateNode::state) so we are safe
             return si->best_action->action;
@@ -497,10 +497,13 @@ private :
         }
     }
 
-    void remove_subgraph(std::unordered_set<StateNode*>& root_subgraph, std::unordered_set<StateNode*>& child_subgraph) {
-        for (auto& n : root_subgraph) {
-            if (child_subgraph.find(n) == child_subgraph.end()) {
-                _graph.erase(StateNode(n->state));
+    // Remove all the other nodes, including the ones of previous searches that can point to removed nodes
+    void remove_unreachable(const std::unordered_set<StateNode*>& child_subgraph) {
+        for (auto i = _graph.begin() ; i != _graph.end() ; ) {
+            if (child_subgraph.find(const_cast<StateNode*>(&(*i))) == child_subgraph.end()) {
+                i = _graph.erase(i);
+            } else {
+                ++i;
             }
         }
     }
-- 
2.43.0


From 18386b32e0a630454b35cac1987f9dba607a6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 041/243] fix: C++ ILAO* discounts passage times, which are
 infinite for discounted policies that never reach a goal

---
 cpp/src/hub/solver/ilaostar.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 0ecd85f..3613082 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -403,7 +403,7 @@ private :
 
         if (s.best_action != nullptr) {
             for (const auto& o : s.best_action->outcomes) {
-                first_passage_time += std::get<0>(o) * (1.0 + (std::get<2>(o)->first_passage_time));
+                first_passage_time += std::get<0>(o) * (1.0 + (_discount * std::get<2>(o)->first_passage_time)); // discounted, like the error it bounds
             }
         }
 
-- 
2.43.0


From 3622d0868246ac610941d9e20708f265bb69d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 042/243] fix: C++ ILAO* bounds the error of a state by the
 residuals of the whole best solution graph

---
 cpp/src/hub/solver/ilaostar.hh | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 3613082..2374c81 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -442,15 +442,27 @@ private :
         //  bound would be erroneous if the best solution graph can
         //  can reach an unexpanded tip node)
         if (_debug_logs) spdlog::debug("Updating solved bits");
-        std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this](auto& s){
+        // the error of a state depends on the residuals of all the states of the best solution graph, some of
+        // which might have not been updated by value iteration (or have been updated before their successors)
+        double max_residual = 0.0;
+        for (const auto& s : _best_solution_graph) {
+            if (s->best_action != nullptr) {
+                double value = 0.0;
+                for (const auto& o : s->best_action->outcomes) {
+                    value += std::get<0>(o) * (std::get<1>(o) + (_discount * std::get<2>(o)->best_value));
+                }
+                max_residual = std::max(max_residual, std::fabs(value - s->best_value));
+            }
+        }
+        std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &max_residual](auto& s){
             s->solved = (s->best_action == nullptr) || // dead end
                         (!(s->reach_tip_node) &&
-                         (((s->first_passage_time) * (s->residual)) < _epsilon));
+                         (((s->first_passage_time) * max_residual) < _epsilon));
             if (_debug_logs) spdlog::debug("Unexpanded tip node reachability and error bound of state " +
                                             s->state.print() + " : " + StringConverter::from(s->reach_tip_node) + " ; " +
                                             StringConverter::from(s->first_passage_time) + " * " +
-                                            StringConverter::from(s->residual) + " = " +
-                                            StringConverter::from((s->first_passage_time) * (s->residual)));
+                                            StringConverter::from(max_residual) + " = " +
+                                            StringConverter::from((s->first_passage_time) * max_residual));
         });
     }
 };
-- 
2.43.0


From d335b5513c2e882f564564411a6c64ae96ece3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:57 +0000
Subject: [PATCH 043/243] fix: C++ ILAO* does not compute passage times of
 policies that can cycle forever

---
 cpp/src/hub/solver/ilaostar.hh | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 2374c81..619b69c 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -422,6 +422,34 @@ private :
         // precision should be acceptable.
 
         if (_debug_logs) spdlog::debug("Computing mean first passage times");
+        std::unordered_set<StateNode*> leaving; // states from which the current best policy can leave the best solution graph
+        bool grows = true;
+        while (grows) {
+            grows = false;
+            for (const auto& s : _best_solution_graph) {
+                if (leaving.find(s) == leaving.end()) {
+                    bool leaves = (s->best_action == nullptr);
+                    if (s->best_action != nullptr) {
+                        for (const auto& o : s->best_action->outcomes) {
+                            leaves = leaves || (_best_solution_graph.find(std::get<2>(o)) == _best_solution_graph.end()) ||
+                                     (leaving.find(std::get<2>(o)) != leaving.end());
+                        }
+                    }
+                    if (leaves) {
+                        leaving.insert(s);
+                        grows = true;
+                    }
+                }
+            }
+        }
+        // passage times are infinite (and not computable by dynamic programming) if the current best policy can cycle forever
+        bool proper = (_discount < 1.0) || (leaving.size() == _best_solution_graph.size());
+        for (const auto& s : _best_solution_graph) {
+            s->first_passage_time = proper ? 0.0 : std::numeric_limits<double>::infinity();
+        }
+        if (!proper) {
+            return;
+        }
         atomic_double residual = std::numeric_limits<double>::infinity();
         while (residual > _epsilon) {
             residual = 0;
-- 
2.43.0


From 5faba91a9782fb14748728d56fe676ef476e5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 044/243] fix: C++ IW can be called again from other states
 without corrupting previous solutions

---
 cpp/src/hub/solver/iw.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hub/solver/iw.hh b/cpp/src/hub/solver/iw.hh
index 55cdffd..af5950d 100644
--- a/cpp/src/hub/solver/iw.hh
+++ b/cpp/src/hub/solver/iw.hh
@@ -230,7 +230,7 @@ private :
         double fscore; // not in A*'s meaning but rather to store cost-to-go once a solution is found
         std::size_t novelty;
         std::size_t depth;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool pruned; // true if pruned by the novelty test (used only to report nb of pruned states)
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
@@ -293,6 +293,12 @@ private :
                 } else if (_domain.is_terminal(s)) { // dead-end state
                     return std::make_pair(false, false);
                 }
+                // Forget the parents of previous searches (from other states or with other widths)
+                for (const Node& n : _graph) {
+                    Node& node = const_cast<Node&>(n); // we won't change the real key (Node::state) so we are safe
+                    node.gscore = std::numeric_limits<double>::infinity();
+                    node.depth = std::numeric_limits<std::size_t>::max();
+                }
                 Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
                 root_node.depth = 0;
                 root_node.gscore = 0;
@@ -334,7 +340,7 @@ private :
 
                     if (_domain.is_goal(best_tip_node->state) || best_tip_node->solved) {
                         auto current_node = best_tip_node;
-                        double tentative_fscore = 0;
+                        double tentative_fscore = (best_tip_node->solved) ? (best_tip_node->fscore) : 0; // cost-to-go of nodes solved by previous searches
 
                         while (current_node != &root_node) {
                             Node* parent_node = std::get<0>(current_node->best_parent);
@@ -349,7 +355,7 @@ private :
 
                             while (current_node != &root_node) {
                                 Node* parent_node = std::get<0>(current_node->best_parent);
-                                parent_node->best_action = &std::get<1>(current_node->best_parent);
+                                parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
                                 parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
                                 parent_node->solved = true;
                                 current_node = parent_node;
-- 
2.43.0


From cddb3d2cac70432c223e82e46addc24c4fa84af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 045/243] fix: C++ IW expands nodes in the requested order and
 computes their novelty only once

---
 cpp/src/hub/solver/iw.hh | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/cpp/src/hub/solver/iw.hh b/cpp/src/hub/solver/iw.hh
index af5950d..73cf698 100644
--- a/cpp/src/hub/solver/iw.hh
+++ b/cpp/src/hub/solver/iw.hh
@@ -304,24 +304,33 @@ private :
                 root_node.gscore = 0;
                 bool states_pruned = false;
 
-                auto node_ordering = [this](const auto& a, const auto& b) -> bool {
-                    return _node_ordering(a->gscore, a->novelty, a->depth,
-                                          b->gscore, b->novelty, b->depth);
+                // entries keep the scores they were pushed with, since nodes' scores can be improved while the nodes are in the queue
+                typedef std::tuple<double, std::size_t, std::size_t, Node*> QueueEntry; // gscore, novelty, depth, node
+                auto node_ordering = [this](const QueueEntry& a, const QueueEntry& b) -> bool {
+                    return _node_ordering(std::get<0>(a), std::get<1>(a), std::get<2>(a),
+                                          std::get<0>(b), std::get<1>(b), std::get<2>(b));
+                };
+                auto make_entry = [](Node* n) -> QueueEntry {
+                    return QueueEntry(n->gscore, n->novelty, n->depth, n);
                 };
 
                 // Priority queue used to sort non-goal unsolved tip nodes by increasing cost-to-go values (so-called OPEN container)
-                std::priority_queue<Node*, std::vector<Node*>, decltype(node_ordering)> open_queue(node_ordering);
-                open_queue.push(&root_node);
+                std::priority_queue<QueueEntry, std::vector<QueueEntry>, decltype(node_ordering)> open_queue(node_ordering);
+                open_queue.push(make_entry(&root_node));
 
                 // Set of states that have already been explored
                 std::unordered_set<Node*> closed_set;
 
+                // Set of states that have already been generated, whose novelty is known
+                std::unordered_set<Node*> generated_set;
+                generated_set.insert(&root_node);
+
                 // Vector of sets of state feature tuples generated so far, for each w <= _width
                 TupleVector feature_tuples(_width);
                 novelty(feature_tuples, root_node); // initialize feature_tuples with the root node's bits
 
                 while (!open_queue.empty()) {
-                    auto best_tip_node = open_queue.top();
+                    auto best_tip_node = std::get<3>(open_queue.top());
                     open_queue.pop();
 
                     // Check that the best tip node has not already been closed before
@@ -387,7 +396,7 @@ private :
 
                     // Expand best tip node
                     auto applicable_actions = _domain.get_applicable_actions(best_tip_node->state).get_elements();
-                    std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &best_tip_node, &open_queue, &feature_tuples, &states_pruned](auto a){
+                    std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &best_tip_node, &open_queue, &closed_set, &generated_set, &feature_tuples, &states_pruned, &make_entry](auto a){
                         if (_debug_logs) spdlog::debug("Current expanded action: " + a.print() + ExecutionPolicy::print_thread());
                         auto next_state = _domain.get_next_state(best_tip_node->state, a);
                         std::pair<typename Graph::iterator, bool> i;
@@ -402,6 +411,7 @@ private :
                         double transition_cost = _domain.get_transition_cost(best_tip_node->state, a, neighbor.state);
                         double tentative_gscore = best_tip_node->gscore + transition_cost;
                         std::size_t tentative_depth = best_tip_node->depth + 1;
+                        bool improved = false;
 
                         if ((i.second) || (tentative_gscore < neighbor.gscore)) {
                             if (_debug_logs) spdlog::debug("New gscore: " +
@@ -409,6 +419,7 @@ private :
                                                            StringConverter::from(transition_cost) + "=" +
                                                            StringConverter::from(tentative_gscore) +
                                                            ExecutionPolicy::print_thread());
+                            improved = true;
                             neighbor.gscore = tentative_gscore;
                             neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
                         }
@@ -419,11 +430,16 @@ private :
                                                            StringConverter::from(1) + "=" +
                                                            StringConverter::from(tentative_depth) +
                                                            ExecutionPolicy::print_thread());
+                            improved = true;
                             neighbor.depth = tentative_depth;
                         }
 
-                        _execution_policy.protect([this, &feature_tuples, &open_queue, &neighbor, &states_pruned]{
-                            if (this->novelty(feature_tuples, neighbor) > _width) {
+                        _execution_policy.protect([this, &feature_tuples, &open_queue, &closed_set, &generated_set, &neighbor, &improved, &states_pruned, &make_entry]{
+                            if (!(generated_set.insert(&neighbor).second)) { // already generated
+                                if (improved && !(neighbor.pruned) && (closed_set.find(&neighbor) == closed_set.end())) {
+                                    open_queue.push(make_entry(&neighbor));
+                                }
+                            } else if (this->novelty(feature_tuples, neighbor) > _width) {
                                 if (_debug_logs) spdlog::debug("Pruning state " + neighbor.state.print() + ExecutionPolicy::print_thread());
                                 states_pruned = true;
                                 neighbor.pruned = true;
@@ -431,7 +447,8 @@ private :
                                 if (_debug_logs) spdlog::debug("Adding state to open queue (among " +
                                                                StringConverter::from(open_queue.size()) + ")" +
                                                                ExecutionPolicy::print_thread());
-                                open_queue.push(&neighbor);
+                                neighbor.pruned = false; // might have been pruned with a smaller width
+                                open_queue.push(make_entry(&neighbor));
                             }
                         });
                     });
-- 
2.43.0


From 4a49feeebf8e3525306f83277dd5eb53ba5e8c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 046/243] fix: C++ BFWS can be called again from other states
 without corrupting previous solutions

---
 cpp/src/hub/solver/bfws.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/bfws.hh b/cpp/src/hub/solver/bfws.hh
index 2e47b53..aa137f6 100644
--- a/cpp/src/hub/solver/bfws.hh
+++ b/cpp/src/hub/solver/bfws.hh
@@ -136,6 +136,10 @@ public :
             if (si.first->solved || _termination_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
                 return;
             }
+            // Forget the parents of previous searches from other states
+            for (const Node& n : _graph) {
+                const_cast<Node&>(n).gscore = std::numeric_limits<double>::infinity(); // we don't change the real key (Node::state) so we are safe
+            }
             Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
             root_node.gscore = 0;
             root_node.heuristic = _heuristic(_domain, root_node.state);
@@ -170,7 +174,7 @@ public :
 
                     while (current_node != &root_node) {
                         Node* parent_node = std::get<0>(current_node->best_parent);
-                        parent_node->best_action = &std::get<1>(current_node->best_parent);
+                        parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
                         parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
                         parent_node->solved = true;
                         current_node = parent_node;
@@ -277,7 +281,7 @@ private :
         double heuristic;
         double gscore;
         double fscore;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
         Node(const State& s, Domain& d,
-- 
2.43.0


From 1e2939ce968167d7396448c3d039ea18161b4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 047/243] fix: C++ BFWS never changes the key of a node already
 in the priority queue

---
 cpp/src/hub/solver/bfws.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cpp/src/hub/solver/bfws.hh b/cpp/src/hub/solver/bfws.hh
index aa137f6..aff65e4 100644
--- a/cpp/src/hub/solver/bfws.hh
+++ b/cpp/src/hub/solver/bfws.hh
@@ -146,14 +146,15 @@ public :
             root_node.novelty = novelty(heuristic_features_map, root_node.heuristic, root_node);
 
             // Priority queue used to sort non-goal unsolved tip nodes by increasing cost-to-go values (so-called OPEN container)
-            std::priority_queue<Node*, std::vector<Node*>, NodeCompare> open_queue;
-            open_queue.push(&root_node);
+            // (entries keep the scores they were pushed with, since nodes' novelties can change while the nodes are in the queue)
+            std::priority_queue<QueueEntry, std::vector<QueueEntry>, QueueEntryCompare> open_queue;
+            open_queue.push(QueueEntry(root_node.heuristic, root_node.novelty, &root_node));
 
             // Set of states that have already been explored
             std::unordered_set<Node*> closed_set;
 
             while (!open_queue.empty()) {
-                auto best_tip_node = open_queue.top();
+                auto best_tip_node = std::get<2>(open_queue.top());
                 open_queue.pop();
 
                 // Check that the best tip node has not already been closed before
@@ -223,7 +224,7 @@ public :
                                                    ExecutionPolicy::print_thread());
                     _execution_policy.protect([this, &heuristic_features_map, &open_queue, &neighbor]{
                         neighbor.novelty = this->novelty(heuristic_features_map, neighbor.heuristic, neighbor);
-                        open_queue.push(&neighbor);
+                        open_queue.push(QueueEntry(neighbor.heuristic, neighbor.novelty, &neighbor));
                         if (_debug_logs) spdlog::debug("Novelty: " + StringConverter::from(neighbor.novelty) +
                                                        ExecutionPolicy::print_thread());
                     });
@@ -321,12 +322,14 @@ private :
         return nov;
     }
 
-    struct NodeCompare {
-        bool operator()(Node*& a, Node*& b) const {
+    typedef std::tuple<double, std::size_t, Node*> QueueEntry; // heuristic, novelty, node
+
+    struct QueueEntryCompare {
+        bool operator()(const QueueEntry& a, const QueueEntry& b) const {
             // smallest element appears at the top of the priority_queue => cost optimization
             // rank first by heuristic values then by novelty measures
-            return ((a->heuristic) > (b->heuristic)) ||
-                    (((a->heuristic) == (b->heuristic)) && ((a->novelty) > (b->novelty)));
+            return (std::get<0>(a) > std::get<0>(b)) ||
+                    ((std::get<0>(a) == std::get<0>(b)) && (std::get<1>(a) > std::get<1>(b)));
         }
     };
 
-- 
2.43.0


From 584dbbfffd093d6ccc807a4875e0c0653c068889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 048/243] fix: clearing C++ MCTS forgets the current node and
 the executed actions

---
 cpp/src/hub/solver/mcts.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/hub/solver/mcts.hh b/cpp/src/hub/solver/mcts.hh
index 6a1f2ea..ae0f571 100644
--- a/cpp/src/hub/solver/mcts.hh
+++ b/cpp/src/hub/solver/mcts.hh
@@ -1018,6 +1018,8 @@ public :
     // previous search results)
     void clear() {
         _graph.clear();
+        _current_state = nullptr;
+        _action_prefix.clear();
     }
 
     // solves from state s
-- 
2.43.0


From 99f6d792ad06fd3ca40b985cbed22969532631e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 049/243] fix: C++ MCTS never keeps pointers to nodes it has
 freed

---
 cpp/src/hub/solver/mcts.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cpp/src/hub/solver/mcts.hh b/cpp/src/hub/solver/mcts.hh
index ae0f571..2d76dd3 100644
--- a/cpp/src/hub/solver/mcts.hh
+++ b/cpp/src/hub/solver/mcts.hh
@@ -1088,10 +1088,9 @@ public :
                 spdlog::debug("Best action's known outcomes:\n" + str);
             }
             if (_online_node_garbage && _current_state) {
-                std::unordered_set<StateNode*> root_subgraph, child_subgraph;
-                compute_reachable_subgraph(_current_state, root_subgraph);
+                std::unordered_set<StateNode*> child_subgraph;
                 compute_reachable_subgraph(const_cast<StateNode*>(&(*si)), child_subgraph); // we won't change the real key (StateNode::state) so we are safe
-                remove_subgraph(root_subgraph, child_subgraph);
+                remove_unreachable(child_subgraph);
             }
             _current_state = const_cast<StateNode*>(&(*si)); // we won't change the real key (StateNode::state) so we are safe
             _action_prefix.push_back(action->action);
@@ -1217,13 +1216,14 @@ private :
         }
     }
 
-    void remove_subgraph(std::unordered_set<StateNode*>& root_subgraph, std::unordered_set<StateNode*>& child_subgraph) {
+    void remove_unreachable(const std::unordered_set<StateNode*>& child_subgraph) {
         std::unordered_set<StateNode*> removed_subgraph;
-        // First pass: look for nodes in root_subgraph but not child_subgraph and remove
-        // those nodes from their children's parents
+        // First pass: look for nodes in the graph (including those that only a previous search could reach, since they
+        // may point to the nodes that are removed) but not in child_subgraph and remove those nodes from their children's parents
         // Don't actually remove those nodes in the first pass otherwise some children to remove
         // won't exist anymore when looking for their parents
-        for (auto& n : root_subgraph) {
+        for (const auto& node : _graph) {
+            StateNode* n = &const_cast<StateNode&>(node); // we won't change the real key (StateNode::state) so we are safe
             if (child_subgraph.find(n) == child_subgraph.end()) {
                 for (auto& action : n->actions) {
                     for (auto& outcome : action.outcomes) {
@@ -1234,7 +1234,7 @@ private :
                 removed_subgraph.insert(n);
             }
         }
-        // Second pass: actually remove nodes in root_subgraph but not in child_subgraph
+        // Second pass: actually remove nodes not in child_subgraph
         for (auto& n : removed_subgraph) {
             _graph.erase(StateNode(n->state));
         }
-- 
2.43.0


From 7681be3df49f803b919bf3ef854a0e293f75d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 050/243] fix: C++ MCTS does not simulate actions in terminal
 states

---
 cpp/src/hub/solver/mcts.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/hub/solver/mcts.hh b/cpp/src/hub/solver/mcts.hh
index 2d76dd3..2c70a1f 100644
--- a/cpp/src/hub/solver/mcts.hh
+++ b/cpp/src/hub/solver/mcts.hh
@@ -774,7 +774,7 @@ public :
                 current_state = n.state;
             }, n.mutex);
 
-            bool termination = false;
+            bool termination = n.terminal; // no action can be applied in a terminal state
             std::size_t current_depth = d;
             double reward = 0.0;
             double gamma_n = 1.0;
-- 
2.43.0


From da0e2b095a521e1d229d3a0a7c7537e642945740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 051/243] fix: clearing C++ RIW forgets the executed actions

---
 cpp/src/hub/solver/riw.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index c33a378..fea386a 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -106,6 +106,10 @@ struct EnvironmentRollout {
         return domain.step(action, thread_id);
     }
 
+    void clear() {
+        _action_prefix.clear();
+    }
+
     void advance(Tdomain& domain,
                  const typename Tdomain::State& state,
                  const typename Tdomain::Event& action,
@@ -136,6 +140,8 @@ struct SimulationRollout {
         return domain.sample(state, action, thread_id);
     }
 
+    void clear() {}
+
     void advance([[maybe_unused]] Tdomain& domain,
                  [[maybe_unused]] const typename Tdomain::State& state,
                  [[maybe_unused]] const typename Tdomain::Event& action,
@@ -193,6 +199,7 @@ public :
     void clear() {
         _graph.clear();
         _min_reward = std::numeric_limits<double>::max();
+        _rollout_policy.clear();
     }
 
     // solves from state s
-- 
2.43.0


From d712f21097ab094a42c3d7ec0bab4603e84ed699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 052/243] fix: C++ RIW keeps the value of a solved node reached
 by another path

---
 cpp/src/hub/solver/riw.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index fea386a..e039f69 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -801,8 +801,10 @@ private :
         }
 
         void update_node(Node& node, bool solved) {
+            if (!node.solved) { // keep the value of an already solved node that is reached again by another action
+                node.value = 0;
+            }
             node.solved = solved;
-            node.value = 0;
             std::unordered_set<Node*> frontier;
             if (_min_reward_changed) {
                 // need for backtracking all leaf nodes in the graph
-- 
2.43.0


From bb41784cb01509b5ad4976cf3c10341967c8df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 053/243] fix: C++ RIW never keeps pointers to nodes it has
 freed

---
 cpp/src/hub/solver/riw.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index e039f69..bcf9c54 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -861,11 +861,16 @@ private :
     // nodes reachable from the child node by 1
     void update_graph(std::unordered_set<Node*>& root_subgraph, std::unordered_set<Node*>& child_subgraph) {
         std::unordered_set<Node*> removed_subgraph;
-        // First pass: look for nodes in root_subgraph but not child_subgraph and remove
-        // those nodes from their children's parents
+        // First pass: look for nodes in the graph (including those that only a previous search could reach, since they
+        // may point to the nodes that are removed) but not in child_subgraph and remove those nodes from their children's parents
         // Don't actually remove those nodes in the first pass otherwise some children to remove
         // won't exist anymore when looking for their parents
         std::unordered_set<Node*> frontier;
+        if (_online_node_garbage) {
+            for (const auto& n : _graph) {
+                root_subgraph.insert(&const_cast<Node&>(n)); // we won't change the real key (Node::state) so we are safe
+            }
+        }
         for (auto& n : root_subgraph) {
             if (n) {
                 if (_online_node_garbage && (child_subgraph.find(n) == child_subgraph.end())) {
-- 
2.43.0


From c6e29f349accccddddb3eaff655acf6aedfe4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 054/243] fix: C++ RIW rollouts end at the maximum depth even
 in cycles

---
 cpp/src/hub/solver/riw.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index bcf9c54..4f4cf2a 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -542,6 +542,7 @@ private :
                                            ExecutionPolicy::print_thread());
             _rollout_policy.init_rollout(_domain, thread_id);
             bool break_loop = false;
+            std::size_t rollout_depth = 0; // the depth of a node is the one of the shortest path to it: it does not grow in cycles
 
             while (!(current_node->solved) && !break_loop) {
 
@@ -591,6 +592,7 @@ private :
                     pick = unsolved_children[std::discrete_distribution<>(probabilities.begin(), probabilities.end())(_gen)];
                 }, _gen_mutex);
                 bool new_node = false;
+                rollout_depth++;
 
                 if (fill_child_node(current_node, pick, new_node, thread_id)) { // terminal state
                     if (_debug_logs) {
@@ -634,10 +636,10 @@ private :
                     update_node(*current_node, true);
                     reached_end_of_trajectory_once = true;
                     break_loop = true;
-                } else if (elapsed_time(start_time) >= _time_budget) {
+                } else if (rollout_depth >= _max_depth || elapsed_time(start_time) >= _time_budget) {
                     if (_debug_logs) {
                         _execution_policy.protect([&current_node](){
-                            spdlog::debug("Time budget consumed" + ExecutionPolicy::print_thread() +
+                            spdlog::debug("Max depth reached in a cycle or time budget consumed" + ExecutionPolicy::print_thread() +
                                           " in state: " + current_node->state.print() +
                                           ", depth=" + StringConverter::from(current_node->depth) +
                                           ", value=" + StringConverter::from(current_node->value) +
@@ -648,7 +650,9 @@ private :
                     // don't backup expanded node at this point otherwise the fscore initialization in update_node is wrong!
                     bool current_node_no_children = false;
                     _execution_policy.protect([&current_node_no_children, &current_node](){
-                        current_node_no_children = current_node->children.empty();
+                        // a node whose rollouts only went through cycles has been expanded but has no value yet
+                        current_node_no_children = current_node->children.empty() ||
+                                                   current_node->value == -std::numeric_limits<double>::max();
                     }, current_node->mutex);
                     if (current_node_no_children) {
                         update_node(*current_node, false);
-- 
2.43.0


From 104d84f082c89b8f5136ca33b770800690a291d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 055/243] fix: C++ RIW does not prune a known state that is
 reached with lower depth

---
 cpp/src/hub/solver/riw.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index 4f4cf2a..60a5940 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -680,7 +680,7 @@ private :
                     }
                     _execution_policy.protect([&feature_tuples, &cv, &k, &novel_depth, &n, &nn, &nov]()->void {
                         auto it = feature_tuples[k-1].insert(std::make_pair(cv, (std::size_t) n.depth));
-                        novel_depth = novel_depth || it.second || (nn && (it.first->second > n.depth)) || (!nn && (it.first->second == n.depth));
+                        novel_depth = novel_depth || it.second || (nn && (it.first->second > n.depth)) || (!nn && (it.first->second >= n.depth));
                         it.first->second = std::min(it.first->second, (std::size_t) n.depth);
                         if(it.second) {
                             nov = std::min(nov, k);
-- 
2.43.0


From a12f3b75af4230c3d135e9f1aec90c0b8ace7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 056/243] fix: C++ RIW backs up the values of states with self
 loops

---
 cpp/src/hub/solver/riw.hh | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index 60a5940..01505f7 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -929,19 +929,23 @@ private :
               std::enable_if_t<std::is_same<TTexecution_policy, SequentialExecution>::value, int> = 0>
     void update_frontier(std::unordered_set<Node*>& new_frontier, Node* n, [[maybe_unused]] TTexecution_policy* execution_policy) {
         for (auto& p : n->parents) {
-            p->solved = true;
-            p->value = -std::numeric_limits<double>::max();
-            p->best_action = nullptr;
+            // p can be one of its own children: only modify it once its children have been read
+            bool solved = true;
+            double best_value = -std::numeric_limits<double>::max();
+            Action* best_action = nullptr;
             for (auto& nn : p->children) {
-                p->solved = p->solved && std::get<2>(nn) && std::get<2>(nn)->solved;
+                solved = solved && std::get<2>(nn) && std::get<2>(nn)->solved;
                 if (std::get<2>(nn)) {
                     double tentative_value = std::get<1>(nn) + (_discount * std::get<2>(nn)->value);
-                    if (p->value < tentative_value) {
-                        p->value = tentative_value;
-                        p->best_action = &std::get<0>(nn);
+                    if (best_value < tentative_value) {
+                        best_value = tentative_value;
+                        best_action = &std::get<0>(nn);
                     }
                 }
             }
+            p->solved = solved;
+            p->value = best_value;
+            p->best_action = best_action;
             new_frontier.insert(p);
         }
     }
@@ -954,20 +958,24 @@ private :
             std::copy(n->parents.begin(), n->parents.end(), std::back_inserter(parents));
         }, n->mutex);
         for (auto& p : parents) {
-            p->solved = true;
-            p->value = -std::numeric_limits<double>::max();
-            p->best_action = nullptr;
-            _execution_policy.protect([this, &p](){
+            // p can be one of its own children: only modify it once its children have been read
+            bool solved = true;
+            double best_value = -std::numeric_limits<double>::max();
+            Action* best_action = nullptr;
+            _execution_policy.protect([this, &p, &solved, &best_value, &best_action](){
                 for (auto& nn : p->children) {
-                    p->solved = p->solved && std::get<2>(nn) && std::get<2>(nn)->solved;
+                    solved = solved && std::get<2>(nn) && std::get<2>(nn)->solved;
                     if (std::get<2>(nn)) {
                         double tentative_value = std::get<1>(nn) + (_discount * std::get<2>(nn)->value);
-                        if (p->value < tentative_value) {
-                            p->value = tentative_value;
-                            p->best_action = &std::get<0>(nn);
+                        if (best_value < tentative_value) {
+                            best_value = tentative_value;
+                            best_action = &std::get<0>(nn);
                         }
                     }
                 }
+                p->solved = solved;
+                p->value = best_value;
+                p->best_action = best_action;
             }, p->mutex);
             new_frontier.insert(p);
         }
-- 
2.43.0


From 1d39948f3dd77060e1bffb6addcb217177d7f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 057/243] fix: C++ RIW backs up the value of an expanded node
 when the minimum reward changes

---
 cpp/src/hub/solver/riw.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index 01505f7..0c36ee0 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -810,6 +810,7 @@ private :
             }
             node.solved = solved;
             std::unordered_set<Node*> frontier;
+            frontier.insert(&node); // not a leaf if it has already been expanded
             if (_min_reward_changed) {
                 // need for backtracking all leaf nodes in the graph
                 _execution_policy.protect([this, &frontier](){
@@ -822,8 +823,6 @@ private :
                     }
                 });
                 _min_reward_changed = false;
-            } else {
-                frontier.insert(&node);
             }
             _parent_solver.backup_values(frontier);
         }
-- 
2.43.0


From 7b05a33038f874eef9cdeac9aba32ebd3a1028c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 058/243] fix: C++ RIW backs up the values of rollouts that are
 interrupted in an expanded node

---
 cpp/src/hub/solver/riw.hh | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index 0c36ee0..a205bae 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -646,16 +646,18 @@ private :
                                           ExecutionPolicy::print_thread());
                         }, current_node->mutex);
                     }
-                    // next test: unexpanded node considered as a temporary (i.e. not solved) terminal node
-                    // don't backup expanded node at this point otherwise the fscore initialization in update_node is wrong!
-                    bool current_node_no_children = false;
-                    _execution_policy.protect([&current_node_no_children, &current_node](){
-                        // a node whose rollouts only went through cycles has been expanded but has no value yet
-                        current_node_no_children = current_node->children.empty() ||
-                                                   current_node->value == -std::numeric_limits<double>::max();
+                    // next test: node without any evaluated action considered as a temporary (i.e. not solved) terminal node
+                    // don't call update_node on other nodes otherwise their fscore initialization is wrong:
+                    // just propagate their current fscore to the nodes of this rollout
+                    bool current_node_no_action = false;
+                    _execution_policy.protect([&current_node_no_action, &current_node](){
+                        current_node_no_action = (current_node->best_action == nullptr);
                     }, current_node->mutex);
-                    if (current_node_no_children) {
+                    if (current_node_no_action) {
                         update_node(*current_node, false);
+                    } else {
+                        std::unordered_set<Node*> frontier({current_node});
+                        _parent_solver.backup_values(frontier);
                     }
                     break_loop = true;
                 }
-- 
2.43.0


From 1dbf09aae645de57af684b94dca42c9cd5d01cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 059/243] fix: DataSpace contains its samples whatever their
 numpy types

---
 skdecide/hub/space/gym/gym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/space/gym/gym.py b/skdecide/hub/space/gym/gym.py
index 5c30994..88a75f3 100644
--- a/skdecide/hub/space/gym/gym.py
+++ b/skdecide/hub/space/gym/gym.py
@@ -255,7 +255,9 @@ class DataSpace(GymSpace[T]):
 
     def contains(self, x: T) -> bool:
         # works even when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
-        return super().contains(super().from_jsonable(self.to_jsonable([x]))[0])
+        # ... but the conversion to JSON loses the numpy types of the fields, so first try without it
+        return super().contains(self.to_unwrapped([x])[0]) or \
+            super().contains(super().from_jsonable(self.to_jsonable([x]))[0])
         # # bug: does not work when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
         # return super().contains(asdict(x))
 
-- 
2.43.0


From 0293f55f3619080ffea268afd42585113fd551e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 060/243] fix: binary features of gym domains can be counted
 and handle dictionaries

---
 skdecide/hub/domain/gym/gym.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..d01c22e 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -439,10 +439,8 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space,
+                                         self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
@@ -509,7 +507,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
-- 
2.43.0


From d9d92183f240ece223e963314fffee723515aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 061/243] fix: boundary extension features of gym domains
 handle discrete variables and dictionaries

---
 skdecide/hub/domain/gym/gym.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index d01c22e..e0a0365 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,8 +279,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete, gym.spaces.multi_binary.MultiBinary)):
+            pass  # no continuous state variable
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
@@ -391,8 +393,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete, gym.spaces.multi_binary.MultiBinary)):
+            pass  # no continuous state variable
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
-- 
2.43.0


From ed6a3f0716aa8b56123f3020afe0bfa048eae5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 062/243] fix: elliptical features of gym domains handle
 dictionaries

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index e0a0365..9f6a4ee 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -582,7 +582,7 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             var = []
             for k in space.spaces.keys():
-                index, l = self._get_variables(space.spaces[k], element[k])
+                l = self._get_variables(space.spaces[k], element[k])
                 var += l
             return var
         else:
-- 
2.43.0


From 3008d73f28ee745b6a28bb52097e38c0748ec7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 063/243] fix: GymPlanningDomain handles multi-discrete
 observations

---
 skdecide/hub/domain/gym/gym.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 9f6a4ee..ee1981a 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -765,6 +765,8 @@ class DeterministicGymDomain(D):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.discrete.Discrete):
             return e1 == e2
+        elif isinstance(space, gym.spaces.multi_discrete.MultiDiscrete):
+            return (e1 == e2).all()
         elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.tuple.Tuple):
-- 
2.43.0


From b34ca8bd13ff163907fa79004558ca05685dad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 064/243] fix: AsGymEnv exchanges elements of the spaces it
 declares

---
 skdecide/hub/domain/gym/gym.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index ee1981a..db4ffdf 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -923,9 +923,12 @@ class AsGymEnv(gym.Env):
         - done (boolean): Whether the episode ended, in which case further step() calls will return undefined results.
         - info (dict): Contains auxiliary diagnostic information (helpful for debugging, and sometimes learning).
         """
-        action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
+        if self._unwrap_spaces:
+            action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
         outcome = self._domain.step(action)
-        outcome_observation = next(iter(self._domain.get_observation_space().to_unwrapped([outcome.observation])))
+        outcome_observation = outcome.observation
+        if self._unwrap_spaces:
+            outcome_observation = next(iter(self._domain.get_observation_space().to_unwrapped([outcome_observation])))
         # Some solvers dealing with OpenAI Gym environments crash when info is None (e.g. baselines solver)
         outcome_info = outcome.info if outcome.info is not None else {}
         return outcome_observation, outcome.value.reward, outcome.termination, outcome_info
@@ -936,7 +939,10 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        observation = self._domain.reset()
+        if self._unwrap_spaces:
+            observation = next(iter(self._domain.get_observation_space().to_unwrapped([observation])))
+        return observation
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0


From 46df529304dc2f4093bc8bb6a3f7258899c15237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 065/243] fix: discretized actions of gym domains set every
 component of the box

---
 skdecide/hub/domain/gym/gym.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index db4ffdf..d7a1a7c 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -624,7 +624,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 if l == -float('inf') or h == float('inf'):
                     actions.append([gym.spaces.box.Box(low=l, high=h).sample() for i in range(self._discretization_factor)])
                 else:
-                    actions.append([l + ((h-l)/(self._discretization_factor - 1))*i for i in range(self._discretization_factor)])
+                    actions.append([l + ((h-l)/max(self._discretization_factor - 1, 1))*i for i in range(self._discretization_factor)])
             alist = []
             self._generate_box_action_combinations(actions, action_space.shape, action_space.dtype, 0, [], alist)
             return ListSpace(alist)
@@ -661,14 +661,8 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
             ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
+            for k, a in enumerate(alist):
+                ar.flat[k] = a
             rlist += [ar]
 
 
-- 
2.43.0


From d639ba28d8e2bf35901433babe421d3aa806bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 066/243] fix: gym domains discretize binary and dictionary
 action spaces

---
 skdecide/hub/domain/gym/gym.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index d7a1a7c..4b471d6 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -637,7 +637,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
@@ -646,10 +646,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
-            generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
+            dkeys = list(action_space.spaces.keys())
+            generate = lambda d: ([{dkeys[d]: e, **g} for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
-                                  [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+                                  [{dkeys[d]: e} for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace(generate(0))
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
-- 
2.43.0


From 57aa0d0143439b482ea1477e7dd4d1b3aef4d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:45 +0000
Subject: [PATCH 067/243] fix: DeterministicInitializedGymDomain gives the
 initial state it declares to know

---
 skdecide/hub/domain/gym/gym.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 4b471d6..c8417c9 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -184,6 +184,10 @@ class DeterministicInitializedGymDomain(D):
             self._init_env = state._context
             self._gym_env = deepcopy(self._init_env)
     
+    def _get_initial_state(self) -> D.T_state:
+        # kept in self._initial_state rather than cached because set_memory() changes it
+        return self._initial_state if self._initial_state is not None else self._state_reset()
+
     def _state_reset(self) -> D.T_state:
         if self._initial_state is None:
             self._initial_state = GymDomainStateProxy(state=self._gym_env.reset(), context=None)
-- 
2.43.0


From 0b07dda32c594d46b07f09b2c9a50749d912ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:21 +0000
Subject: [PATCH 068/243] fix: the observation space of MasterMind contains the
 winning score

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..89573e6 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From 7b9c88d9d4fec12e4738f583d9aec10f2f19244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 069/243] fix: mazes can be rendered with recent versions of
 matplotlib

---
 skdecide/hub/domain/maze/maze.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/maze/maze.py b/skdecide/hub/domain/maze/maze.py
index 5d6c66a..43c267d 100644
--- a/skdecide/hub/domain/maze/maze.py
+++ b/skdecide/hub/domain/maze/maze.py
@@ -133,7 +133,8 @@ class Maze(D):
         if self._ax is None:
             # fig = plt.gcf()
             fig, ax  = plt.subplots(1)
-            fig.canvas.set_window_title('Maze')
+            # the canvas itself has no title in recent versions of matplotlib
+            getattr(fig.canvas, 'manager', fig.canvas).set_window_title('Maze')
             # ax = plt.axes()
             ax.set_aspect('equal')  # set the x and y axes to the same scale
             plt.xticks([])  # remove the tick marks by setting to an empty list
-- 
2.43.0


From 57c6428259af65cbf1d233e648409234d4035c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 070/243] fix: zero-duration tasks give their renewable
 resources back when they complete

---
 skdecide/builders/scheduling/scheduling_domains.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..a455c62 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,7 +425,9 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
-                next_state.resource_used_for_task.pop(task)
+                for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
+                    if self.is_renewable(res):
+                        next_state.resource_used[res] -= res_consumption
         return next_state
 
     def update_complete_dummy_tasks_uncertain(self, states: DiscreteDistribution[State], action: SchedulingAction):
@@ -440,7 +442,9 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
-                    next_state.resource_used_for_task.pop(task)
+                    for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
+                        if self.is_renewable(res):
+                            next_state.resource_used[res] -= res_consumption
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From f0bff1b3d3ce8063f16c7675ebe7fc4e4b834c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 071/243] fix: the active time of a paused task can be computed

---
 skdecide/builders/scheduling/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..aa36989 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,9 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            # a task which is currently paused has not been resumed from its last pause
+            resumed = self.resumed[i] if i < len(self.resumed) else tt
+            time_paused += resumed - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From edfb0a6671cd2cb689150d37de5eef3e25ab76cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 072/243] fix: the non-renewable resource policy of a pause is
 looked up by task, not by resource

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a455c62..8d63bae 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -464,7 +464,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From 9a2bcb8a9cfbf2a61be8bb520669a72420d16c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 073/243] fix: resuming a task is refused cleanly without
 resources, and honours its mode, resume type and kept resources

---
 .../builders/scheduling/scheduling_domains.py | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 8d63bae..18e7039 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -8,7 +8,7 @@ from skdecide.builders.domain import SingleAgent, Sequential, DeterministicTrans
 from skdecide.builders.scheduling.modes import SingleMode, MultiMode
 from skdecide.builders.scheduling.resource_consumption import VariableResourceConsumption, ConstantResourceConsumption
 from skdecide.builders.scheduling.precedence import WithPrecedence
-from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity
+from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity, ResumeType
 from skdecide.builders.scheduling.resource_type import WithResourceTypes, WithResourceUnits, WithoutResourceUnit
 from skdecide.builders.scheduling.resource_renewability import RenewableOnly, MixedRenewable
 from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum, State, \
@@ -492,15 +492,18 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
-            time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
             b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
             if not b:
                 return next_state
+            next_state.tasks_mode[resumed_task] = mode
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
+            if self.get_task_resuming_type()[resumed_task] == ResumeType.Restart:
+                next_state.tasks_progress[resumed_task] = 0.
             for res in resource_to_use:
-                next_state.resource_used[res] += resource_to_use[res]
+                if not self._is_kept_while_paused(resumed_task, res):
+                    next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
             #self.get_latest_sampled_duration(task=resumed_task , mode=mode,
             #                                 progress_from=next_state.tasks_progress[resumed_task])  # TODO: what to do with this, so far the sample is stored and then used by get_task_progress()
@@ -546,20 +549,27 @@ class SchedulingDomain(WithPrecedence,
         if not action.action == SchedulingActionEnum.START and not action.action == SchedulingActionEnum.RESUME:
             return True, {}
         started_task = action.task
+        is_resume = action.action == SchedulingActionEnum.RESUME
+        mode = state.tasks_mode[started_task] if is_resume and action.mode is None else action.mode
         resource_to_use = self.get_resource_used(task=started_task,
-                                                 mode=action.mode,
+                                                 mode=mode,
                                                  resource_unit_names=action.resource_unit_names,
                                                  time_since_start=
                                                  state.tasks_details[started_task].get_task_active_time(state.t))
         if any(resource_to_use[r] >
                state.resource_availability[r]-state.resource_used[r]
-               for r in resource_to_use):
+               for r in resource_to_use
+               if not (is_resume and self._is_kept_while_paused(started_task, r))):
             return False, resource_to_use
         b = self.check_if_skills_are_fulfilled(task=started_task,
-                                               mode=action.mode,
+                                               mode=mode,
                                                resource_used=resource_to_use)
         return b, resource_to_use
 
+    def _is_kept_while_paused(self, task: int, resource: str) -> bool:
+        """Return whether a paused task still holds what it consumed of the resource."""
+        return not self.is_renewable(resource) and not self.get_task_paused_non_renewable_resource_returned()[task]
+
     def get_resource_used(self, task: int, mode: int,
                           resource_unit_names: Set[str],
                           time_since_start: int):
-- 
2.43.0


From 0b93084b0d9a5889b320b4c0f3bfbd604478c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 074/243] fix: every feasible mode of a task is offered for
 starting, with its need at its start

---
 skdecide/builders/scheduling/scheduling_domains.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 18e7039..050eb5c 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -683,11 +683,14 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_tasks = {}
+        for n, mode in possible_task_with_ressource:
+            possible_tasks.setdefault(n, {})[mode] = \
+                self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_tasks
 
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
-- 
2.43.0


From dd1776f523e37708ace2f000cd0d30c1d86b609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 075/243] fix: paused tasks are offered for resuming in their
 mode and only when their resources are free

---
 .../builders/scheduling/scheduling_domains.py   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 050eb5c..b91d3ba 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -693,11 +693,10 @@ class SchedulingDomain(WithPrecedence,
         return possible_tasks
 
     def get_possible_resume_tasks(self, state: State):
-        possible_task_precedence = [(n, mode)
+        possible_task_precedence = [(n, state.tasks_mode[n])
                                     for n in state.tasks_paused
-                                    for mode in self.get_task_modes(n).keys()
                                     if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
+                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
         # print("Possible task precedence : ", possible_task_precedence)
         possible_task_with_ressource = [(n, mode)
                                         for n, mode in possible_task_precedence
@@ -705,8 +704,10 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
-                                               for key in self.get_resource_types_names())]
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
+                                               for key in self.get_resource_types_names()
+                                               if not self._is_kept_while_paused(n, key))]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
                 for n, mode in possible_task_with_ressource}
@@ -936,7 +937,7 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
                 list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
                                                  mode=self.state.tasks_mode[t],
                                                  time_progress=False)
@@ -998,7 +999,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
 
                 for possible_to_resume in task_possible_to_resume:
                     possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume,
@@ -1006,7 +1007,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                                                              self.state.tasks_mode[possible_to_resume])
 
                     list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
+                                                     action=SchedulingActionEnum.RESUME,
                                                      mode=self.state.tasks_mode[possible_to_resume],
                                                      time_progress=False,
                                                      resource_unit_names={r} if r is not None else None)
-- 
2.43.0


From 3aa6604b4d43036624d80afc34acfff1b7d542b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 076/243] fix: every condition distribution of a completed task
 is drawn, and outcome probabilities sum to one

---
 skdecide/builders/scheduling/scheduling_domains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index b91d3ba..fc59c96 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,7 +360,7 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, state_proba in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
@@ -379,15 +379,15 @@ class SchedulingDomain(WithPrecedence,
                 next_state.resource_used_for_task.pop(completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
                 if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
                     for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
+                        all_models[(completed_task, i)] = []
                         for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
                             all_values.append({'task': completed_task,
                                                'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][0],
                                                'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
+                            all_models[(completed_task, i)].append(len(all_values)-1)
 
             combinations = list(product(*all_models.values()))
             # for comb in combinations:
@@ -400,7 +400,7 @@ class SchedulingDomain(WithPrecedence,
             for comb in combinations:
                 do_copy = len(comb) > 0
                 next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
+                proba = state_proba
                 for i in comb:
                     next_state_2._current_conditions.add(all_values[i]['cond'])
                     proba *= all_values[i]['prob']
-- 
2.43.0


From 83d38b64a430a98cf9390511a7ec5e1b09172442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 077/243] fix: tasks whose conditions have just been met are
 available before termination is decided

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index fc59c96..333192a 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -95,8 +95,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_simulation(next_state, action)
         next_state = self.update_start_tasks_simulation(next_state, action)
         next_state = self.update_complete_dummy_tasks_simulation(next_state, action)
-        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_time_simulation(next_state, action)
+        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_resource_availability_simulation(next_state,
                                                                   action)
         is_terminal = self._is_terminal(next_state)
@@ -117,8 +117,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_start_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_complete_dummy_tasks_uncertain(next_state_distrib, action)
-        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_time_uncertain(next_state_distrib, action)
+        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_resource_availability_uncertain(next_state_distrib,
                                                                          action)  # maybe this should be done after self.update_time too ??
         return next_state_distrib
@@ -135,8 +135,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks(next_state, action)
         next_state = self.update_start_tasks(next_state, action)
         next_state = self.update_complete_dummy_tasks(next_state, action)
-        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_time(next_state, action)
+        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_resource_availability(next_state, action)  # maybe this should be done after self.update_time too ??
 
         return next_state
-- 
2.43.0


From 4815d5328ece0d949e4194f3537d9da5db8db914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 078/243] fix: the consumption of a task is not read past its
 end nor shared between outcomes

---
 skdecide/builders/scheduling/scheduling_domains.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 333192a..1caf9e9 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -598,7 +598,7 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_ongoing.add(started_task)
             next_state.tasks_remaining.remove(started_task)
             next_state.tasks_details[started_task].start = next_state.t
-            next_state.tasks_details[started_task].resources = resource_to_use
+            next_state.tasks_details[started_task].resources = dict(resource_to_use)
             next_state.tasks_details[started_task].sampled_duration = \
                 self.get_latest_sampled_duration(task=started_task, mode=mode, progress_from=0.)  # TODO: what to do with this, so far the sample is stored and then used by get_task_progress()
             for res in resource_to_use:
@@ -633,7 +633,7 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From 2a6bcbbaf3e757e35a12201c0d92faab3caaef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 079/243] fix: renewable resources are charged for elapsed time
 and non-renewable ones against the previous state

---
 skdecide/builders/scheduling/scheduling_domains.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 1caf9e9..0cbfe6d 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -800,16 +800,18 @@ class SchedulingDomain(WithPrecedence,
             nonrenewable_type_cost_val = 0.
             for res in self.get_resource_types_names():
                 if self.is_renewable(res):
-                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] \
+                        * memory.resource_used[res] * (next_state.t - memory.t)
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
-                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] \
+                        * memory.resource_used[res] * (next_state.t - memory.t)
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From 5630cb306ed6b21ad74753dd4831e628d90efe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 080/243] fix: zero-duration tasks draw their completion
 conditions too

---
 .../builders/scheduling/scheduling_domains.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 0cbfe6d..a2315e6 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -436,7 +436,10 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.action == SchedulingActionEnum.START:
             task = action.task
-            for next_state, _ in next_states.get_values():
+            conditions = self.get_task_on_completion_added_conditions().get(task, [])
+            states_and_proba = []
+            for next_state, state_proba in next_states.get_values():
+                outcomes = [()]
                 if next_state.tasks_details[task].sampled_duration == 0:
                     next_state.tasks_complete.add(task)
                     next_state.tasks_progress[task] = 1
@@ -445,12 +448,22 @@ class SchedulingDomain(WithPrecedence,
                     for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
                         if self.is_renewable(res):
                             next_state.resource_used[res] -= res_consumption
+                    outcomes = product(*[distribution.get_values() for distribution in conditions])
+                for outcome in outcomes:
+                    next_state_2 = next_state.copy() if len(outcome) > 0 else next_state
+                    proba = state_proba
+                    for condition, condition_proba in outcome:
+                        next_state_2._current_conditions.add(condition)
+                        proba *= condition_proba
+                    states_and_proba += [(next_state_2, proba)]
+            return DiscreteDistribution(states_and_proba)
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
         """In a simulated scheduling environment, update the status of newly started tasks whose duration is 0
         from ongoing to complete."""
-        return self.update_complete_dummy_tasks(state, action)
+        return self.update_complete_dummy_tasks_uncertain(
+            states=DiscreteDistribution([(state, 1.)]), action=action).sample()
 
     def update_pause_tasks(self, state: State, action: SchedulingAction):
         """Update the status of a task from ongoing to paused if specified in the action
@@ -761,7 +774,7 @@ class SchedulingDomain(WithPrecedence,
         """Update remaining tasks by checking conditions and potentially adding conditional tasks."""
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
-        if action.time_progress:
+        if action.time_progress or action.action == SchedulingActionEnum.START:
             for next_state, _ in next_states.get_values():
                 all_available_tasks = self.get_available_tasks(next_state)
                 all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
-- 
2.43.0


From 32df87379573ed90b6480a6ae38e046a3f2dbc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 081/243] fix: scheduling action spaces can tell whether they
 contain an action

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a2315e6..b180ef2 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -970,6 +970,10 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
     def sample(self) -> T:
         return random.choice(self.elements)
 
+    def contains(self, x: T) -> bool:
+        return any((e.task, e.action, e.mode, e.time_progress) == (x.task, x.action, x.mode, x.time_progress)
+                   for e in self.elements)
+
 
 # TODO : will work well for domains where a task can be done by one ressource unit (and not a combination of ressource units)
 # In this case we can enumerate the "worker" ressource. This is the case of the MultiSkill RCPSP of the Imopse benchmark
-- 
2.43.0


From b30402c36bf483ad2cd0d5249095df76f5d32eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:48 +0000
Subject: [PATCH 082/243] fix: scheduling states with the same content are
 equal whatever the order in which they were reached

---
 .../scheduling/scheduling_domains_modelling.py  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 925823a..b4b9c31 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -19,6 +19,19 @@ class SchedulingActionEnum(Enum):
     TIME_PR = 3
 
 
+def _freeze(value: Any):
+    """Return a hashable version of the content of a value, whatever the insertion order in its sets and dictionaries."""
+    if isinstance(value, dict):
+        return frozenset((key, _freeze(val)) for key, val in value.items())
+    if isinstance(value, (set, frozenset)):
+        return frozenset(_freeze(val) for val in value)
+    if isinstance(value, (list, tuple)):
+        return tuple(_freeze(val) for val in value)
+    if isinstance(value, Task):
+        return _freeze(value.__dict__)
+    return value
+
+
 class State:
     """Class modelling a scheduling state and used by sk-decide scheduling domains.
 
@@ -126,10 +139,10 @@ class State:
         return str(self)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(_freeze(self.__dict__))
 
     def __eq__(self, other):
-        return self.__hash__() == other.__hash__()
+        return isinstance(other, State) and _freeze(self.__dict__) == _freeze(other.__dict__)
 
 
 # class SamplableAction:
-- 
2.43.0


From 25732195c700043e7eaafb31c81ab9a486d5e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:49 +0000
Subject: [PATCH 083/243] fix: domains with varying consumption can have
 non-renewable resources

---
 skdecide/builders/scheduling/resource_renewability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/resource_renewability.py b/skdecide/builders/scheduling/resource_renewability.py
index 16ff3b8..af5026a 100644
--- a/skdecide/builders/scheduling/resource_renewability.py
+++ b/skdecide/builders/scheduling/resource_renewability.py
@@ -35,7 +35,7 @@ class MixedRenewable:
                 mode_possible = True
                 for res in self.get_resource_types_names():
                     if not self.get_resource_renewability()[res]:
-                        need = self.get_task_modes(task_id)[mode].get_resource_need(res)
+                        need = self.get_task_modes(task_id)[mode].get_resource_need_at_time(res, 0)
                         avail = state.resource_availability[res] - state.resource_used[res]
                         if avail - need < 0:
                             mode_possible = False
-- 
2.43.0


From e0f06909377ea4a1d4fb82da209685e04c6caa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 084/243] fix: the TSP model can be imported on Python 3.9 and
 later

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index c0a71e6..22f5fcb 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -202,7 +202,7 @@ class TSPModel(Problem):
 
 
 # One 
-class Point2D(Point, NamedTuple):
+class Point2D(NamedTuple):
     x: float
     y: float
 
-- 
2.43.0


From 6227f42cda2ba2eaa6d92aa0594d32ddbae37810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 085/243] fix: the RCPSP schedule generation counts the
 non-renewable resources of zero-duration activities

---
 .../discrete_optimization/rcpsp/rcpsp_model.py       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..ea466e9 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -243,6 +243,12 @@ class RCPSPSolution(Solution):
                                     unfeasible_non_renewable_resources = True
                                     # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
                         # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
+                if end_t < current_min_time:  # zero duration: the loop above did not consume anything
+                    for res in self.problem.non_renewable_resources:
+                        for tt in range(min(current_min_time, new_horizon-1), new_horizon):
+                            resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                            if resource_avail_in_time[res][tt] < 0:
+                                unfeasible_non_renewable_resources = True
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
                 perm_extended.remove(act_id)
@@ -369,6 +375,12 @@ class RCPSPSolution(Solution):
                                     unfeasible_non_renewable_resources = True
                                     # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
                         # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
+                if end_t < current_min_time:  # zero duration: the loop above did not consume anything
+                    for res in self.problem.non_renewable_resources:
+                        for tt in range(min(current_min_time, new_horizon-1), new_horizon):
+                            resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                            if resource_avail_in_time[res][tt] < 0:
+                                unfeasible_non_renewable_resources = True
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
                 perm_extended.remove(act_id)
-- 
2.43.0


From 7a9d64d80313dcfdef7e1c6cdd0363981e0e8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 086/243] fix: the mean reserve of non-renewable resources
 accounts for what completed activities consumed

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index ea466e9..7f89fcc 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -135,10 +135,10 @@ class RCPSPSolution(Solution):
                 for t in range(start_time, end_time):
                     for res in resource_avail_in_time.keys():
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][mode][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_time:
-                            for tt in range(end_time + 1, makespan):
-                                resource_avail_in_time[res][tt] -= \
-                                self.problem.mode_details[act_id][mode][res]
+                for res in self.problem.non_renewable_resources:
+                    for tt in range(end_time, makespan):
+                        resource_avail_in_time[res][tt] -= \
+                            self.problem.mode_details[act_id][mode][res]
         # print('resource_avail_in_time: ', resource_avail_in_time)
         mean_avail = {}
         for res in list(self.problem.resources.keys()):
-- 
2.43.0


From e00d04cc808cead4fedc385d2ea5713e7c115571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 087/243] fix: changing the modes of an RCPSP solution outdates
 its schedule

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 7f89fcc..861963a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -56,7 +55,9 @@ class RCPSPSolution(Solution):
             if self.rcpsp_schedule is not None:
                 self.standardised_permutation = self.generate_permutation_from_schedule()
                 self.rcpsp_permutation = deepcopy(self.standardised_permutation)
-                self._schedule_to_recompute = False
+
+        # the assignments above flagged the schedule as outdated
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if rcpsp_schedule is None:
             if not isinstance(problem, Aggreg_RCPSPModel):
@@ -75,7 +76,7 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in {"rcpsp_permutation", "rcpsp_modes"}:
             self._schedule_to_recompute = True
 
     def copy(self):
-- 
2.43.0


From 87b566d692d196733fba142c7c50877e68d5b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 088/243] fix: copies of an RCPSP solution remember that its
 schedule is outdated

---
 .../rcpsp/rcpsp_model.py                      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 861963a..e94c371 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -80,20 +80,24 @@ class RCPSPSolution(Solution):
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                            rcpsp_modes=deepcopy(self.rcpsp_modes),
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=self.rcpsp_permutation,
+                            rcpsp_modes=self.rcpsp_modes,
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def __str__(self):
         if self.rcpsp_schedule is None:
-- 
2.43.0


From 49d76041a569dd6819f297b80ca9e6228af162b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 089/243] fix: copies of an RCPSP model do not share their
 resources

---
 .../discrete_optimization/rcpsp/rcpsp_model.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index e94c371..b4a26f5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -676,8 +676,8 @@ class RCPSPModel(Problem):
             ax[i].legend()
 
     def copy(self):
-        return RCPSPModel(resources=self.resources,
-                          non_renewable_resources=self.non_renewable_resources,
+        return RCPSPModel(resources=deepcopy(self.resources),
+                          non_renewable_resources=list(self.non_renewable_resources),
                           mode_details=deepcopy(self.mode_details),
                           successors=deepcopy(self.successors),
                           horizon=self.horizon,
@@ -728,7 +728,7 @@ class RCPSPModelCalendar(RCPSPModel):
     def copy(self):
         return RCPSPModelCalendar(resources={w: deepcopy(self.resources[w])
                                              for w in self.resources},
-                                  non_renewable_resources=self.non_renewable_resources,
+                                  non_renewable_resources=list(self.non_renewable_resources),
                                   mode_details=deepcopy(self.mode_details),
                                   successors=deepcopy(self.successors),
                                   horizon=self.horizon,
@@ -816,8 +816,8 @@ class SingleModeRCPSPModel(RCPSPModel):
         return objectives
 
     def copy(self):
-        return SingleModeRCPSPModel(resources=self.resources,
-                                    non_renewable_resources=self.non_renewable_resources,
+        return SingleModeRCPSPModel(resources=deepcopy(self.resources),
+                                    non_renewable_resources=list(self.non_renewable_resources),
                                     mode_details=deepcopy(self.mode_details),
                                     successors=deepcopy(self.successors),
                                     horizon=self.horizon,
@@ -871,8 +871,8 @@ class MultiModeRCPSPModel(RCPSPModel):
         return objectives
 
     def copy(self):
-        mm = MultiModeRCPSPModel(resources=self.resources,
-                                 non_renewable_resources=self.non_renewable_resources,
+        mm = MultiModeRCPSPModel(resources=deepcopy(self.resources),
+                                 non_renewable_resources=list(self.non_renewable_resources),
                                  mode_details=deepcopy(self.mode_details),
                                  successors=deepcopy(self.successors),
                                  horizon=self.horizon,
-- 
2.43.0


From 9abe9c2482e8ad471549018ac77dfb213850defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 090/243] fix: decoding from a partial execution keeps ongoing
 tasks and the consumed non-renewable resources

---
 .../discrete_optimization/rcpsp/rcpsp_model.py         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index b4a26f5..8bea7f3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -314,6 +314,8 @@ class RCPSPSolution(Solution):
         # print('all_activities: ', all_activities)
         perm_extended = [x for x in perm_extended if x not in list(completed_tasks)]
         # print('perm_extended - removed completed_tasks: ', perm_extended)
+        # tasks already started keep their resources
+        perm_extended.sort(key=lambda x: x not in scheduled_tasks_start_times)
 
         # fix modes in case specified mode not in mode details for the activites
         for i in range(len(modes_extended)):
@@ -324,6 +326,14 @@ class RCPSPSolution(Solution):
                 if i != 0 and i != len(modes_extended)-1:
                     self.rcpsp_modes[i-1] = modes_extended[i]
 
+        # completed tasks have consumed their non-renewable resources
+        for act_id in completed_tasks:
+            for res in self.problem.non_renewable_resources:
+                for tt in range(new_horizon):
+                    resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id-1]][res]
+                    if resource_avail_in_time[res][tt] < 0:
+                        unfeasible_non_renewable_resources = True
+
         # print('modes_extended: ', modes_extended)
         # print('start SGS')
         while len(perm_extended) > 0 and not unfeasible_non_renewable_resources:
-- 
2.43.0


From a105cd42c8c5cb0888b1bf31881d9be16867fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:43 +0000
Subject: [PATCH 091/243] fix: RCPSP satisfy reports violated non-renewable
 resources of empty schedules

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 8bea7f3..2880028 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -608,7 +608,7 @@ class RCPSPModel(Problem):
                     mode = modes_extended[act_id-1]
                     usage += self.mode_details[act_id][mode][res]
                 if usage > self.resources[res]:
-                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
+                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', usage, 'res_avail: ', self.resources[res])
                     return False
 
             # Check precedences / successors
@@ -787,7 +787,7 @@ class RCPSPModelCalendar(RCPSPModel):
                     mode = modes_extended[act_id-1]
                     usage += self.mode_details[act_id][mode][res]
                 if usage > self.resources[res][0]:
-                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
+                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', usage, 'res_avail: ', self.resources[res])
                     return False
 
             # Check precedences / successors
-- 
2.43.0


From fd2e6e8582588229cfa7743b47421ca3521befc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 092/243] fix: portfolios of mutations do not use the removed
 numpy.int

---
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
-- 
2.43.0


From 00768163ef8101728e900317a99bdf38b3d99daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 093/243] fix: swaps are undone in reverse order and outdate
 what depends on the permutation

---
 .../generic_tools/mutations/permutation_mutations.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..49be560 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -142,13 +142,15 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
 
-- 
2.43.0


From 134255e439785deefde5e180a68d6679141f6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 094/243] fix: swaps can move the last element of a permutation

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 49be560..c376f62 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -180,7 +180,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
-- 
2.43.0


From ff1e28f39c4482784e9f0aa6f0155f000565d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 095/243] fix: partial shuffles do not modify the given
 solution

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index c376f62..ea6d62c 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -116,7 +116,7 @@ class PermutationPartialShuffleMutation(Mutation):
         random.shuffle(self.range_int_total)
         int_to_move = self.range_int_total[:self.n_to_move]
         random.shuffle(self.range_int)
-        new = getattr(solution, self.attribute)
+        new = list(previous)
         for k in range(self.n_to_move):
             #prevs += [new[int_to_move[k]]]
             new[int_to_move[k]] = previous[int_to_move[self.range_int[k]]]
-- 
2.43.0


From bcf60ccb5ff9cd6713585be9fdd5f4605fb02f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 096/243] fix: the 2-opt mutation accepts permutations of one
 element

---
 .../generic_tools/mutations/permutation_mutations.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index ea6d62c..b5315c2 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -233,8 +233,10 @@ class TwoOptMutation(LocalMove):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        i = random.randint(0, self.length-2)
-        j = random.randint(i+1, self.length-1)
+        i, j = 0, 0
+        if self.length > 1:  # otherwise there is nothing to reverse
+            i = random.randint(0, self.length-2)
+            j = random.randint(i+1, self.length-1)
         two_opt_move = TwoOptMove(self.attribute, [(i, j)])
         new_sol = two_opt_move.apply_local_move(solution)
         return (new_sol, two_opt_move)
-- 
2.43.0


From 45b9a16622e4ce44461011a6a615944a8912ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 097/243] fix: result storages keep the best fitness values in
 both senses and can start empty

---
 .../result_storage/result_storage.py          | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..80816ac 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -39,8 +39,7 @@ class ResultStorage:
         if self.size_heap >= self.nb_best_score and self.limit_store:
             self.heap = nsmallest(self.nb_best_score, self.heap) if not self.maximize else \
                 nlargest(self.nb_best_score, self.heap)
-            heapify(self.heap)
-            self.size_heap = self.nb_best_score
+            self.size_heap = len(self.heap)
         if len(self.heap) > 0:
             self.min = min(self.heap)
             self.max = max(self.heap)
@@ -50,23 +49,25 @@ class ResultStorage:
 
     def add_solution(self, solution: Solution,
                      fitness: fitness_class):
-        if solution not in self.map_solutions:
+        if len(self.map_solutions) == 0:
+            self.min = fitness
+            self.max = fitness
+            self.best_solution = solution
+        is_new = solution not in self.map_solutions
+        if is_new:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-        if self.maximize and fitness >= self.min or \
-                (not self.maximize and fitness <= self.max):
-            if self.size_heap >= self.nb_best_score and self.limit_store:
-                heappushpop(self.heap, fitness)
-                self.min = min(fitness, self.min)
-                self.max = max(fitness, self.max)
-            else:
-                heappush(self.heap, fitness)
-                self.size_heap += 1
-                self.min = min(fitness, self.min)
-                self.max = max(fitness, self.max)
+        self.min = min(self.min, fitness)
+        self.max = max(self.max, fitness)
+        if is_new:
+            self.heap.append(fitness)
+            if self.limit_store and len(self.heap) > self.nb_best_score:
+                worst = min if self.maximize else max
+                self.heap.pop(worst(range(len(self.heap)), key=lambda i: self.heap[i]))
+            self.size_heap = len(self.heap)
 
     def finalize(self):
         self.heap = sorted(self.heap, reverse=self.maximize)
-- 
2.43.0


From 3718f6c78ed1c33e894e3c4c94c0d93b1d6da4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 098/243] fix: local searches use the default objectives of the
 problem when none is given

---
 .../generic_tools/ls/hill_climber.py                  | 11 +++++------
 .../generic_tools/ls/simulated_annealing.py           |  9 ++++-----
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..91de898 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -1,7 +1,7 @@
 import pickle
 from typing import Optional, Union, List
 from skdecide.builders.discrete_optimization.generic_tools.do_problem import Solution, Problem, \
-    build_evaluate_function_aggregated, ObjectiveHandling, ModeOptim, ParamsObjectiveFunction
+    build_aggreg_function_and_params_objective, ObjectiveHandling, ModeOptim, ParamsObjectiveFunction
 from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, \
                                                              ModeMutation, ResultLS
 from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation
@@ -21,11 +21,10 @@ class HillClimber:
         self.mutator = mutator
         self.restart_handler = restart_handler
         self.mode_mutation = mode_mutation
-        self.params_objective_function = params_objective_function
-        self.mode_optim = params_objective_function.sense_function
-        self.aggreg_from_solution, self.aggreg_from_dict_values = \
-            build_evaluate_function_aggregated(evaluator,
-                                               params_objective_function=self.params_objective_function)
+        self.aggreg_from_solution, self.aggreg_from_dict_values, self.params_objective_function = \
+            build_aggreg_function_and_params_objective(evaluator,
+                                                       params_objective_function=params_objective_function)
+        self.mode_optim = self.params_objective_function.sense_function
         self.store_solution = store_solution
         self.nb_solutions = nb_solutions
 
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..f7fbb72 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -2,7 +2,7 @@ import math
 import random
 import pickle
 from skdecide.builders.discrete_optimization.generic_tools.do_problem import Problem, Solution, \
-    build_evaluate_function_aggregated, ModeOptim, ParamsObjectiveFunction
+    build_aggreg_function_and_params_objective, ModeOptim, ParamsObjectiveFunction
 from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, ModeMutation, ResultLS
 from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation
 from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
@@ -34,10 +34,9 @@ class SimulatedAnnealing:
         self.restart_handler = restart_handler
         self.temperature_handler = temperature_handler
         self.mode_mutation = mode_mutation
-        self.params_objective_function = params_objective_function
-        self.aggreg_from_solution, self.aggreg_from_dict_values = \
-            build_evaluate_function_aggregated(evaluator,
-                                               params_objective_function=params_objective_function)
+        self.aggreg_from_solution, self.aggreg_from_dict_values, self.params_objective_function = \
+            build_aggreg_function_and_params_objective(evaluator,
+                                                       params_objective_function=params_objective_function)
         self.mode_optim = self.params_objective_function.sense_function
         self.store_solution = store_solution
         self.nb_solutions = nb_solutions
-- 
2.43.0


From 6a7489ab90a028b284abbe69414b94530f9c5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 099/243] fix: the results of a local search know the sense of
 its optimisation

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py     | 3 +++
 .../generic_tools/ls/simulated_annealing.py                    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 91de898..538ba4b 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -38,12 +38,14 @@ class HillClimber:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
@@ -124,6 +126,7 @@ class HillClimberPareto(HillClimber):
         pareto_front = ParetoFront(list_solution_fits=
                                    [(initial_variable, objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index f7fbb72..517572c 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -54,12 +54,14 @@ class SimulatedAnnealing:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
-- 
2.43.0


From 4a3a50567693a4aa9e6e883bab4a2dfc3b0c6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 100/243] fix: local searches store copies of the solutions
 with their own fitness

---
 .../generic_tools/ls/hill_climber.py                 | 10 +++++-----
 .../generic_tools/ls/simulated_annealing.py          | 12 ++++--------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 538ba4b..48374fc 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -36,13 +36,13 @@ class HillClimber:
         objective = self.aggreg_from_dict_values(self.evaluator.evaluate(initial_variable))
         cur_variable = initial_variable.copy()
         if self.store_solution:
-            store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(), objective)],
                                   best_solution=initial_variable.copy(),
                                   mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
-            store = ResultStorage(list_solution_fits=[(initial_variable,
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(),
                                                        objective)],
                                   best_solution=initial_variable.copy(),
                                   mode_optim=self.mode_optim,
@@ -71,20 +71,20 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)  # before the move is possibly undone in place
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv, objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index 517572c..2a7a442 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -52,13 +52,13 @@ class SimulatedAnnealing:
         cur_objective = objective
         cur_best_objective = objective
         if self.store_solution:
-            store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(), objective)],
                                   best_solution=initial_variable.copy(),
                                   mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
-            store = ResultStorage(list_solution_fits=[(initial_variable,
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(),
                                                        objective)],
                                   best_solution=initial_variable.copy(),
                                   mode_optim=self.mode_optim,
@@ -90,17 +90,13 @@ class SimulatedAnnealing:
                 p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)  # before the move is possibly undone in place
             if accept:
                 cur_objective = objective
                 cur_variable = nv
-                # print("iter ", iteration)
-                # print("acceptance ", objective)
             else:
                 cur_variable = move.backtrack_local_move(nv)
-                # print(move)
-                # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From d03aabfeebf5730462045ad48426e845c1829b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 101/243] fix: local searches restart from a solution that has
 the best fitness

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py      | 2 ++
 .../generic_tools/ls/simulated_annealing.py                     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 48374fc..977bb37 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -52,6 +52,7 @@ class HillClimber:
         cur_objective = objective
         cur_best_objective = objective
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             accept = False
@@ -134,6 +135,7 @@ class HillClimberPareto(HillClimber):
         cur_objective = objective
         cur_best_objective = objective
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             accept = False
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index 2a7a442..9c6674a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -65,6 +65,7 @@ class SimulatedAnnealing:
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             local_improvement = False
-- 
2.43.0


From 07bb62c6352063350cbe0ecaf69426e43f06c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 102/243] fix: comparing results on other problems leaves the
 stored solutions as they are

---
 .../generic_tools/result_storage/resultcomparator.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..5bb1083 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -42,8 +42,9 @@ class ResultComparator:
                 for scenario in self.test_problems:
                     # res.list_solution_fits[0][0].change_problem(scenario)
                     # val = scenario.evaluate(res.list_solution_fits[0][0])[obj]
-                    res.get_best_solution().change_problem(scenario)
-                    val = scenario.evaluate(res.get_best_solution())[obj]
+                    sol = res.get_best_solution().copy()  # the stored one keeps its problem
+                    sol.change_problem(scenario)
+                    val = scenario.evaluate(sol)[obj]
                     self.reevaluated_results[self.list_result_storage.index(res)][obj].append(val)
         print('reevaluated_results: ', self.reevaluated_results)
 
-- 
2.43.0


From 9452951b00b0aad864512cfa5c20ac50ddc2b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 103/243] fix: the merged Pareto front respects the sense of
 the results

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index 5bb1083..3bbf180 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -90,7 +90,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0


From 0451ab5a34efc262c9fabad7720e80076ce46846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 104/243] fix: the best solution of a multi-objective storage
 is never dominated

---
 .../generic_tools/result_storage/result_storage.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 80816ac..dde8eb0 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -41,8 +41,8 @@ class ResultStorage:
                 nlargest(self.nb_best_score, self.heap)
             self.size_heap = len(self.heap)
         if len(self.heap) > 0:
-            self.min = min(self.heap)
-            self.max = max(self.heap)
+            self.min = min(fit for _, fit in self.list_solution_fits)
+            self.max = max(fit for _, fit in self.list_solution_fits)
             if self.best_solution is None:
                 f = min if not self.maximize else max
                 self.best_solution = f(self.list_solution_fits, key=lambda x: x[1])[0]
-- 
2.43.0


From e9960321506681f772cea45ad63b57f20ab562ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 105/243] fix: the uniform integer mutation of genetic
 algorithms stays below the arities

---
 skdecide/builders/discrete_optimization/generic_tools/ea/ga.py  | 2 +-
 .../builders/discrete_optimization/generic_tools/ea/nsga.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index e4d6414..8004f2a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -282,7 +282,7 @@ class Ga():
                 # print('DEAP-GA - self.arrity: ', self.arrity)
 
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=[arrity-1 for arrity in self.arrities], indpb=self._mut_rate)
 
         # Choice of selection
         if self._selection_type == DeapSelection.SEL_TOURNAMENT:
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index ca6deed..25079dc 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -245,7 +245,7 @@ class Nsga():
                 self._toolbox.register("mutate", tools.mutShuffleIndexes, indpb=self._mut_rate)  # Choice of mutation operator
             elif self._mutation == DeapMutation.MUT_UNIFORM_INT:
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=[arrity-1 for arrity in self.arrities], indpb=self._mut_rate)
 
         # No choice of selection: In NSGA, only 1 selection: Non Dominated Sorted Selection
         self._toolbox.register("select", tools.selNSGA3, ref_points=ref_points)
-- 
2.43.0


From 35a4c014f75af17acec9ad4300ddd752d44646c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 106/243] fix: genetic algorithms use the arities of custom and
 boolean encodings

---
 .../builders/discrete_optimization/generic_tools/ea/ga.py     | 4 ++--
 .../builders/discrete_optimization/generic_tools/ea/nsga.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index 8004f2a..b1ad7f4 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -143,7 +143,7 @@ class Ga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
@@ -172,7 +172,7 @@ class Ga():
 
         if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
             self.arrity = 2
-            self.arities = [2 for i in range(self.n)]
+            self.arrities = [2 for i in range(self.n)]
 
         print("Encoding used by the GA: "+self._encoding_name+": "+str(self._encoding_type)+" of length "+str(self.n))
 
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index 25079dc..d4b7f81 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -117,7 +117,7 @@ class Nsga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
@@ -146,7 +146,7 @@ class Nsga():
 
         if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
             self.arrity = 2
-            self.arities = [2 for i in range(self.n)]
+            self.arrities = [2 for i in range(self.n)]
 
         print("Encoding used by the GA: "+self._encoding_name+": "+str(self._encoding_type)+" of length "+str(self.n))
 
-- 
2.43.0


From d3f2b645c390b34b0063631ac16b77f974c7d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 107/243] fix: the genetic algorithm accepts default and named
 objectives and applies the weight of a single one

---
 .../discrete_optimization/generic_tools/ea/ga.py     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index b1ad7f4..948ab63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -183,6 +183,12 @@ class Ga():
             self._objective_handling = objective_handling
 
         self._objectives = objectives
+        if self._objectives is None:  # default objectives of the problem
+            self._objectives, default_weights = problem.get_objective_register().get_list_objective_and_default_weight()
+            if objective_weights is None:
+                objective_weights = default_weights
+        elif isinstance(self._objectives, str):
+            self._objectives = [self._objectives]
         if (isinstance(self._objectives, List) and len(self._objectives) > 1) \
                 and self._objective_handling == ObjectiveHandling.SINGLE:
             print('Many objectives specified but single objective handling, using the first objective in the dictionary')
@@ -307,11 +313,11 @@ class Ga():
         # encoding_name = self._encoding_name
         objective_values = self.problem.evaluate_from_encoding(int_vector, self._encoding_variable_name)
         if self._objective_handling == ObjectiveHandling.SINGLE:
-            if (self._objectives is None) or (self._objectives[0] not in list(objective_values.keys())):
+            if self._objectives[0] not in list(objective_values.keys()):
                 default_key = list(objective_values.keys())[0]
-                val = self._objectives[0] * objective_values[default_key]
+                val = self._objective_weights[0] * objective_values[default_key]
             else:
-                val = objective_values[self._objectives[0]]
+                val = self._objective_weights[0] * objective_values[self._objectives[0]]
         elif self._objective_handling == 'aggregate':
             val = sum([objective_values[self._objectives[i]] * self._objective_weights[i]
                        for i in range(len(self._objectives))])
-- 
2.43.0


From 6ec357627f08a579918a7e196fdd35b978b690db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 108/243] fix: tournaments of small populations have at least
 one participant

---
 skdecide/builders/discrete_optimization/generic_tools/ea/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index 948ab63..8d612a3 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -292,7 +292,7 @@ class Ga():
 
         # Choice of selection
         if self._selection_type == DeapSelection.SEL_TOURNAMENT:
-            self._toolbox.register("select", tools.selTournament, tournsize=int(self._tournament_size*self._pop_size))
+            self._toolbox.register("select", tools.selTournament, tournsize=max(1, int(self._tournament_size*self._pop_size)))
         elif self._selection_type == DeapSelection.SEL_RANDOM:
             self._toolbox.register("select", tools.selRandom)
         elif self._selection_type == DeapSelection.SEL_BEST:
-- 
2.43.0


From aad50856c81730066e35f33280e3de18d46fe0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 109/243] fix: NSGA accepts default weights and a single named
 objective

---
 .../discrete_optimization/generic_tools/ea/nsga.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index d4b7f81..eb3709d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -46,6 +46,12 @@ class Nsga():
                                    TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY: DeapMutation.MUT_UNIFORM_INT,
                                    TypeAttribute.PERMUTATION: DeapMutation.MUT_SHUFFLE_INDEXES}
         self._default_selection = DeapSelection.SEL_TOURNAMENT
+        if isinstance(objectives, str):
+            objectives = [objectives]
+        if objective_weights is None or len(objective_weights) != len(objectives):
+            print('Objective weight issue: no weight given or size of weights and objectives lists mismatch. '
+                  'Setting all weights to default 1 value.')
+            objective_weights = [1 for i in range(len(objectives))]
         self.params_objective_function = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ,
                                                                  objectives=objectives,
                                                                  weights=objective_weights,
@@ -154,12 +160,6 @@ class Nsga():
         self._objectives = objectives
         print('_objectives: ', self._objectives)
         self._objective_weights = objective_weights
-        if (self._objective_weights is None) \
-                or self._objective_weights is not None \
-                and(len(self._objective_weights) != len(self._objectives)):
-            print('Objective weight issue: no weight given or size of weights and objectives lists mismatch. '
-                  'Setting all weights to default 1 value.')
-            self._objective_weights = [1 for i in range(len(self._objectives))]
 
         if selection is None:
             self._selection_type = self._default_selection
-- 
2.43.0


From 62e4af078d3b13cb45911004d9e8a85e0aad734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 110/243] fix: genetic algorithms return the modes that they
 evaluated

---
 .../discrete_optimization/generic_tools/do_problem.py    | 7 +++++++
 .../discrete_optimization/generic_tools/ea/ga.py         | 2 +-
 .../discrete_optimization/generic_tools/ea/nsga.py       | 2 +-
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py  | 9 +++++++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
index 37d0e35..654cbca 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
@@ -111,6 +111,10 @@ class Problem:
     def satisfy(self, variable: Solution)->bool:
         ...
 
+    def convert_encoding(self, int_vector: List[int], encoding_name: str) -> List[int]:
+        """Return the value of a solution attribute that corresponds to a vector given to evaluate_from_encoding."""
+        return int_vector
+
     @abstractmethod
     def get_attribute_register(self)->EncodingRegister:
         ...
@@ -181,6 +185,9 @@ class RobustProblem(Problem):
     def satisfy(self, variable: Solution) -> bool:
         return self.list_problem[0].satisfy(variable)
 
+    def convert_encoding(self, int_vector: List[int], encoding_name: str) -> List[int]:
+        return self.list_problem[0].convert_encoding(int_vector, encoding_name)
+
     def get_attribute_register(self) -> EncodingRegister:
         return self.list_problem[0].get_attribute_register()
 
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index 8d612a3..2967e49 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -355,7 +355,7 @@ class Ga():
 
         best_vector = hof[0]
 
-        s_pure_int = [i for i in best_vector]
+        s_pure_int = self.problem.convert_encoding([i for i in best_vector], self._encoding_variable_name)
         kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
         problem_sol = self.problem.get_solution_type()(**kwargs)
 
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index eb3709d..c4df105 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -305,7 +305,7 @@ class Nsga():
 
         sols = []
         for s in pop:
-            s_pure_int = [i for i in s]
+            s_pure_int = self.problem.convert_encoding([i for i in s], self._encoding_variable_name)
             kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
             problem_sol = self.problem.get_solution_type()(**kwargs)
             fits = self.evaluate_sol(problem_sol)
diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 2880028..d865ac0 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -554,6 +554,11 @@ class RCPSPModel(Problem):
     def evaluate_from_encoding(self, int_vector, encoding_name):
         ...
 
+    def convert_encoding(self, int_vector, encoding_name):
+        if encoding_name == 'rcpsp_modes':  # modes are numbered from 1
+            return [x+1 for x in int_vector]
+        return int_vector
+
     def evaluate(self, rcpsp_sol: RCPSPSolution) -> Dict[str, float]:
         obj_makespan, obj_mean_resource_reserve = self.evaluate_function(rcpsp_sol)
         return {'makespan': obj_makespan, 'mean_resource_reserve': obj_mean_resource_reserve}
@@ -873,7 +878,7 @@ class MultiModeRCPSPModel(RCPSPModel):
                                       rcpsp_modes=self.fixed_modes)
         elif encoding_name == 'rcpsp_modes':
             # change the modes in the solution with int_vector and set the permutation with self.fixed_permutation
-            modes_corrected = [x+1 for x in int_vector]
+            modes_corrected = self.convert_encoding(int_vector, encoding_name)
             rcpsp_sol = RCPSPSolution(problem=self,
                                       rcpsp_permutation=self.fixed_permutation,
                                       rcpsp_modes=modes_corrected)
@@ -1239,7 +1244,7 @@ class MRCPSP_H_Model(MultiModeRCPSPModel):
                                       rcpsp_modes=self.fixed_modes)
         elif encoding_name == 'rcpsp_modes':
             # change the modes in the solution with int_vector and set the permutation with self.fixed_permutation
-            modes_corrected = [x+1 for x in int_vector]
+            modes_corrected = self.convert_encoding(int_vector, encoding_name)
             rcpsp_sol = RCPSPSolution(problem=self,
                                       rcpsp_permutation=self.fixed_permutation,
                                       rcpsp_modes=modes_corrected)
-- 
2.43.0


From b142e4675fbf39971f65f43b40865b59e7602b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 111/243] fix: the alternating genetic algorithm alternates
 between its encodings and uses its parameters

---
 .../generic_tools/ea/alternating_ga.py                 | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
index 72f3cab..1e2f80f 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
@@ -77,13 +77,21 @@ class AlternatingGa():
                            objective_handling=self.objective_handling,
                            objectives=self.objectives,
                            objective_weights=self.objective_weights,
-                           mutation=self.mutations[current_encoding_index],
+                           mutation=None if self.mutations is None else self.mutations[current_encoding_index],
+                           crossover=None if self.crossovers is None else self.crossovers[current_encoding_index],
+                           selection=None if self.selections is None else self.selections[current_encoding_index],
+                           pop_size=self.pop_size,
+                           mut_rate=self.mut_rate,
+                           crossover_rate=self.crossover_rate,
+                           tournament_size=self.tournament_size,
+                           deap_verbose=self.deap_verbose,
                            max_evals=self.sub_evals[current_encoding_index])
             tmp_sol = ga_solver.solve().get_best_solution()
             count_evals += self.sub_evals[current_encoding_index]
 
             # TODO: implement function below (1 in rcpsp domains, 1 in rcpsp solutions)
             self.problem.set_fixed_attributes(self.encodings[current_encoding_index], tmp_sol)
+            current_encoding_index = (current_encoding_index + 1) % len(self.encodings)
 
         problem_sol = tmp_sol
 
-- 
2.43.0


From ba4693a510932d516e911755b8b4c1b4882eb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:54 +0000
Subject: [PATCH 112/243] fix: the two-opt mutation is a mutation, not a move

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index b5315c2..4159aa7 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -209,7 +209,7 @@ class TwoOptMove(LocalMove):
         return solution
 
 
-class TwoOptMutation(LocalMove):
+class TwoOptMutation(Mutation):
     @staticmethod
     def build(problem: Problem, solution: Solution, 
               **kwargs):
-- 
2.43.0


From bf0730c4c1e9f127f18620c37e0d0b29910c706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 113/243] fix: integer arrays and samples of dictionary keys
 work with current numpy and Python

---
 .../facility/solvers/facility_lp_solver.py                | 2 +-
 .../discrete_optimization/knapsack/solvers/lp_solvers.py  | 4 ++--
 .../rcpsp/solver/rcpsp_cp_lns_solver.py                   | 6 +++---
 .../rcpsp/solver/rcpsp_lp_lns_solver.py                   | 8 ++++----
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py    | 8 ++++----
 .../rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py    | 4 ++--
 .../discrete_optimization/tsp/solver/solver_ortools.py    | 2 +-
 skdecide/builders/discrete_optimization/ttp/ttp_parser.py | 4 ++--
 .../discrete_optimization/vrp/solver/solver_ortools.py    | 2 +-
 .../builders/discrete_optimization/vrp/vrp_toolbox.py     | 2 +-
 10 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8218c0f..4f1a6fe 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -36,7 +36,7 @@ def prune_search_space(facility_problem: FacilityProblem,
     customers = facility_problem.customers
     nb_facilities = len(facilities)
     nb_customers = len(customers)
-    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=np.int)
+    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
     matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
     for c in range(nb_customers):
         matrix_fc_indicator[closest[:n_shortest, c], c] = 2
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 8145498..e39adb3 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -126,7 +126,7 @@ class LPKnapsackGurobi(SolverDO):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"].keys()),
                                               int(fraction_decision_fixed*len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize()
@@ -341,7 +341,7 @@ class LPKnapsack(MilpSolver):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"].keys()),
                                                int(fraction_decision_fixed * len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize(max_seconds=parameter_gurobi.TimeLimit,
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 72d0c43..44a2841 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -38,7 +38,7 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time-self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -103,7 +103,7 @@ class ConstraintHandlerByPart_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time - self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -172,7 +172,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
index c63b245..b5ff15a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
@@ -115,7 +115,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
         milp_solver.model.start = start
 
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -169,7 +169,7 @@ class ConstraintHandlerStartTimeInterval(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time-5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -229,7 +229,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -291,7 +291,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP_GRB(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index ed7ce34..7a645ba 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -41,7 +41,7 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
     #                  if current_solution.schedule[x]["end_time"] >= max_time-5]
     #     last_jobs = []
     #     nb_jobs = self.problem.n_jobs_non_dummy + 2
-    #     jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+    #     jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
     #                                     int(self.fraction_to_fix * nb_jobs)))
     #     for lj in last_jobs:
     #         if lj in jobs_to_fix:
@@ -117,14 +117,14 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.schedule[x]["end_time"] >= max_time-20]
         # last_jobs = []
         nb_jobs = self.problem.n_jobs_non_dummy + 2
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
                 jobs_to_fix.remove(lj)
         list_strings = []
         self.employees_position = sorted(self.problem.employees)
-        task_to_fix = set(random.sample(current_solution.schedule.keys(),
+        task_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_task_to_fix_employee * nb_jobs)))
         employee_to_not_fix = set(random.sample(range(1, len(self.employees_position)+1),
                                                 min(5, int(1. * len(self.employees_position)))))
@@ -221,7 +221,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
index 8d7d4da..324f9e7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
@@ -77,7 +77,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
                 start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
         milp_solver.model.start = start
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -127,7 +127,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.schedule
                      if current_solution.schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.nb_tasks
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 73e4741..83e7816 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(np.int))
+            distance_matrix = (10**6*matrix.astype(int))
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
index ff50f4c..681b633 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
@@ -72,7 +72,7 @@ def parse(file_path)->TTPModel:
                 edgeWeightType = line[0]
             elif line.startswith("NODE_COORD_SECTION"):
                 nodes = []
-                nodes_array = np.zeros((numberOfNodes, 3), dtype=np.int)
+                nodes_array = np.zeros((numberOfNodes, 3), dtype=int)
                 for i in range(numberOfNodes):
                     line = fp.readline()
                     line = line.split()
@@ -88,7 +88,7 @@ def parse(file_path)->TTPModel:
                     nodes += [n]
             elif line.startswith("ITEMS SECTION"):
                 items = []
-                items_array = np.zeros((numberOfItems, 4), dtype=np.int)
+                items_array = np.zeros((numberOfItems, 4), dtype=int)
                 for j in range(numberOfItems):
                     line = fp.readline()
                     line = line.split()
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index d112d0c..50a137e 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -126,7 +126,7 @@ class VrpORToolsSolver(SolverDO):
         first_solution_strategy = first_solution_map[first_solution_strategy]
         local_search_metaheuristic = metaheuristic_map[local_search_metaheuristic]
         G, matrix_distance = build_graph(self.problem)
-        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=np.int)
+        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=int)
         demands = [self.problem.customers[i].demand for i in range(self.problem.customer_count)]
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.problem.customer_count,
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 22732c2..d7c1ae1 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=np.int)
+    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=int)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
-- 
2.43.0


From 31d401912eb70dd080183e606bb2375a5b1a5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 114/243] fix: the last date of a single-mode project is a
 possible start time

---
 .../rcpsp/minizinc/rcpsp_single_mode_mzn.mzn                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
index de2ca8a..11a6c0a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
@@ -41,7 +41,7 @@ array [Tasks]      of set of int: suc;  % The task successors
 
 % Planning horizon
 int: t_max = sum(i in Tasks)(d[i]);     % End time of the planning horizon
-set of int: Times = 0..t_max-1;     % Possible start times
+set of int: Times = 0..t_max;       % Possible start times
 
 %-----------------------------------------------------------------------------%
 % Model variables.
-- 
2.43.0


From 72f710e7b1c9b43f6d4d23f427d9bed5a872b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 115/243] fix: schedules with a calendar may use the whole
 calendar

---
 .../rcpsp/minizinc/fzn_my_cumulative.mzn                    | 2 +-
 .../rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
index 4ed6366..6d7497f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
@@ -30,7 +30,7 @@ predicate cumulative_time_calendar(array[int] of var int: s,
         set of int: Tasks =
             {i | i in index_set(s) where ub(r[i]) > 0 /\ ub(d[i]) > 0 },
         int: early = min([ lb(s[i]) | i in Tasks ]),
-        int: late  = max([ ub(s[i]) + ub(d[i]) | i in Tasks ])
+        int: late  = min(max([ ub(s[i]) + ub(d[i]) | i in Tasks ]), length(b) - 1)
     } in (
         forall( t in early..late ) (
             b[t+1] >= sum( i in Tasks ) (
diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
index 13ffdcb..544e24f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
@@ -61,9 +61,11 @@ int: max_mrreq = max(k in Res, m in Mod)(mrreq[k,m]);
 %---------------------------------------------------------------------------%
 % Variables
 
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
-
 int: max_time;
+
+    % The calendar may leave gaps in the schedule: only its end bounds it
+int: UB = max_time;
+
 set of int: TIME_ARR = 1..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
 
-- 
2.43.0


From 6bd2da0fa062aeebac8d6364f54433b213a35c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 116/243] fix: partial solutions hold every constraint that the
 solvers read, and fix the modes that they name

---
 .../discrete_optimization/rcpsp/rcpsp_model.py     | 14 +++++++++++++-
 .../rcpsp/solver/cp_solvers.py                     |  6 +++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index d865ac0..14c3c4b 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -486,7 +486,11 @@ class PartialSolution:
                  start_times: Dict[int, int]=None,
                  end_times: Dict[int, int]=None,
                  partial_permutation: List[int]=None,
-                 list_partial_order: List[List[int]]=None):
+                 list_partial_order: List[List[int]]=None,
+                 start_together: List[Tuple[int, int]]=None,
+                 start_at_end: List[Tuple[int, int]]=None,
+                 start_at_end_plus_offset: List[Tuple[int, int, int]]=None,
+                 start_after_nunit: List[Tuple[int, int, int]]=None):
         self.task_mode = task_mode
         self.start_times = start_times
         self.end_times = end_times
@@ -494,6 +498,14 @@ class PartialSolution:
         self.list_partial_order = list_partial_order
         # one element in self.list_partial_order is a list [l1, l2, l3]
         # indicating that l1 should be started before l1, and  l2 before l3 for example
+        self.start_together = start_together
+        # (t1, t2): t1 and t2 start at the same time
+        self.start_at_end = start_at_end
+        # (t1, t2): t2 starts when t1 ends
+        self.start_at_end_plus_offset = start_at_end_plus_offset
+        # (t1, t2, delta): t2 starts at least delta after the end of t1
+        self.start_after_nunit = start_after_nunit
+        # (t1, t2, delta): t2 starts at least delta after the start of t1
 
 
 class RCPSPModel(Problem):
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index ffc5bde..53f84be 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -334,7 +334,7 @@ class CP_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -587,7 +587,7 @@ class CP_MRCPSP_MZN_NOBOOL(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -732,7 +732,7 @@ class CP_MRCPSP_MZN_MODES:
         if p_s is not None:
             constraint_strings = []
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From 4bb01b4e8871d14aa1f771b68b2a529c60fed110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 117/243] fix: linear programming RCPSP solvers report the best
 solution of the pool

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index caf2946..1fcd8c7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -190,7 +190,7 @@ class LP_RCPSP(MilpSolver):
                 print("Problem =", rcpsp_schedule, len(rcpsp_schedule))
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
+                             best_solution=max(list_solution_fits,
                                                key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
@@ -390,7 +390,7 @@ class LP_MRCPSP(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
+                             best_solution=max(list_solution_fits,
                                                key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
@@ -634,7 +634,7 @@ class LP_MRCPSP_GUROBI(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
+                             best_solution=max(list_solution_fits,
                                                key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
-- 
2.43.0


From b253f0b64d6588bfec6a6a4b52f156e22186f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 118/243] fix: the time loop of the critical path solver checks
 the resources of every date

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index f49df65..eb5aedd 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -326,7 +326,7 @@ class CPM(SolverDO):
                                                                                     if task
                                                                                     not in
                                                                                     self.predecessors_map[j]["succs"]]))]
-                                    break
+                                        break
                             if not valid:
                                 break
                         if valid:
-- 
2.43.0


From 28fba698ec45d84f5b62d4e13f0ceb0f2251ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 119/243] fix: consecutive activities of the critical path
 follow each other without slack

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index eb5aedd..e04326f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -112,10 +112,11 @@ class CPM(SolverDO):
 
         critical_path = [self.sink]
         cur_node = self.sink
-        while cur_node is not self.source:
+        while cur_node != self.source:
             nodes = [n for n in
                      self.immediate_predecessors[cur_node]
-                     if self.map_node[n]._ESD == self.map_node[n]._LSD]
+                     if self.map_node[n]._ESD == self.map_node[n]._LSD
+                     and self.map_node[n]._EFD == self.map_node[cur_node]._ESD]
             cur_node = nodes[0]
             critical_path += [cur_node]
         return critical_path[::-1]
-- 
2.43.0


From c4b279919e17501a03e4c45e7e98d4d2f99215ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 120/243] fix: activities may end at the horizon in schedules
 built from the critical path

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index e04326f..ca4b66e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -172,7 +172,7 @@ class CPM(SolverDO):
                                          if r != "duration"}
                 duration = self.rcpsp_model.mode_details[j][1]["duration"]
                 delayed_du_to_ressource = False
-                for time in range(early_start, self.rcpsp_model.horizon):
+                for time in range(early_start, self.rcpsp_model.horizon - duration + 1):
                     valid = True
                     for res in resource_avail_in_time:
                         for t in range(time, time+duration):
-- 
2.43.0


From 31eee71500bd0384137fcba3e8e357a29517b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 121/243] fix: the RCPSP genetic algorithms use all their
 parameters

---
 .../rcpsp/solver/rcpsp_ga_solver.py             | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py
index a27c412..1d337de 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py
@@ -26,7 +26,14 @@ class GA_RCPSP_Solver(SolverDO):
                        objectives=parameters_ga.objectives,
                        objective_weights=parameters_ga.objective_weights,
                        mutation=parameters_ga.mutation,
-                       max_evals=parameters_ga.max_evals)
+                       crossover=parameters_ga.crossover,
+                       selection=parameters_ga.selection,
+                       pop_size=parameters_ga.pop_size,
+                       max_evals=parameters_ga.max_evals,
+                       mut_rate=parameters_ga.mut_rate,
+                       crossover_rate=parameters_ga.crossover_rate,
+                       tournament_size=parameters_ga.tournament_size,
+                       deap_verbose=parameters_ga.deap_verbose)
         return ga_solver.solve()
 
 
@@ -46,6 +53,12 @@ class GA_MRCPSP_Solver(SolverDO):
                                   objective_weights=parameters_ga.objective_weights,
                                   mutations=parameters_ga.mutations,
                                   crossovers=parameters_ga.crossovers,
+                                  selections=[parameters_ga.selection]*len(parameters_ga.encodings),
+                                  pop_size=parameters_ga.pop_size,
                                   max_evals=parameters_ga.max_evals,
-                                  sub_evals=parameters_ga.sub_evals)
+                                  sub_evals=parameters_ga.sub_evals,
+                                  mut_rate=parameters_ga.mut_rate,
+                                  crossover_rate=parameters_ga.crossover_rate,
+                                  tournament_size=parameters_ga.tournament_size,
+                                  deap_verbose=parameters_ga.deap_verbose)
         return ga_solver.solve()
-- 
2.43.0


From f11fa91edc713198b6f8f6e1f47cd4bcbb6f9f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 122/243] fix: the iterative calendar solver counts the needs
 of the modes in use

---
 .../rcpsp/solver/calendar_solver_iterative.py        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
index 7c91130..8babd54 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
@@ -31,21 +31,22 @@ def get_ressource_breaks(problem_calendar, problem_no_calendar, solution: RCPSPS
     sorted_keys_schedule = sorted(solution.rcpsp_schedule.keys())
     for ji in range(len(sorted_keys_schedule)):
         j = sorted_keys_schedule[ji]
-        for r in problem_calendar.mode_details[j][1]:
+        mode_j = 1 if j == 1 or j == problem_calendar.n_jobs+2 else solution.rcpsp_modes[j-2]
+        for r in problem_calendar.mode_details[j][mode_j]:
             if r == "duration":
                 continue
             if r is None:
                 continue
             if r == "None":
                 continue
-            if problem_calendar.mode_details[j][1][r] == 0:
+            if problem_calendar.mode_details[j][mode_j][r] == 0:
                 continue
             if solution.rcpsp_schedule[j]["end_time"] == solution.rcpsp_schedule[j]["start_time"]:
                 continue
             ressource_arrays_usage[r][int(solution.rcpsp_schedule[j]["start_time"]):
                                       int(solution.rcpsp_schedule[j]["end_time"]), ji] = 1
             ressource_arrays[r][int(solution.rcpsp_schedule[j]["start_time"]):
-                                int(solution.rcpsp_schedule[j]["end_time"])] += problem_calendar.mode_details[j][1][r]
+                                int(solution.rcpsp_schedule[j]["end_time"])] += problem_calendar.mode_details[j][mode_j][r]
     index_ressource = {}
     task_concerned = {}
     constraints = {}
@@ -62,13 +63,14 @@ def get_ressource_breaks(problem_calendar, problem_no_calendar, solution: RCPSPS
         constraints[r] = {}
         for t in task_concerned[r]:
             current_start = solution.rcpsp_schedule[t]["start_time"]
+            min_need = min(problem_calendar.mode_details[t][m][r] for m in problem_calendar.mode_details[t])
             first_possible_start_future = next((st for st in range(current_start, len(problem_calendar.resources[r]))
                                                if problem_calendar.resources[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                                >= min_need),
                                                None)
             first_possible_start_before = next((st for st in range(current_start, -1, -1)
                                                if problem_calendar.resources[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                                >= min_need),
                                                None)
             #if first_possible_start_before is not None:
             #    first_possible_start_before = \
-- 
2.43.0


From 66d326200c1783be0920daf34860bbcf5236651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 123/243] fix: the iterative calendar solver returns solutions
 that respect the calendar

---
 .../rcpsp/solver/calendar_solver_iterative.py               | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
index 8babd54..96e6c73 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
@@ -417,6 +417,12 @@ class SolverWithCalendarIterative(SolverDO):
                 #                                                                                    child_instance=child,
                 #                                                                                    result_storage=
                 #                                                                                    store_lns)
+        if store_with_all is not None:
+            # The solutions of the relaxed problem (without calendar) are not solutions of the problem.
+            satisfiable = [(s, f) for s, f in store_with_all.list_solution_fits
+                           if "satisfy" in s.__dict__.keys() and s.satisfy]
+            if len(satisfiable) > 0:
+                store_with_all = ResultStorage(list_solution_fits=satisfiable, mode_optim=store_with_all.mode_optim)
         return store_with_all
 
 
-- 
2.43.0


From 0d02372d82d0ee067f15b5bac6c8285edb10aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 124/243] fix: the calendar greedy solver accepts the models
 without calendar that it declares

---
 .../discrete_optimization/rcpsp/solver/rcpsp_pile.py   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 7cf9b4a..0e50a73 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -238,12 +238,18 @@ class PileSolverRCPSP_Calendar(SolverDO):
                     if task in schedule:
                         schedule[task]["end_time"] = partial_solution.end_times[task]
 
-        current_ressource_available = {r: list(self.resources[r])+[self.resources[r][-1]]*100 for r in self.resources}
+        if self.with_calendar:
+            resources = self.resources
+        else:
+            max_length = sum(max(self.mode_details[t][m]["duration"] for m in self.mode_details[t])
+                             for t in self.mode_details)
+            resources = {r: [self.resources[r]]*(max_length+1) for r in self.resources}
+        current_ressource_available = {r: list(resources[r])+[resources[r][-1]]*100 for r in resources}
         # if self.with_calendar:
         #    current_ressource_available = {r: current_ressource_available[r][0]
         #                                   for r in current_ressource_available}
 
-        current_ressource_non_renewable = {nr: list(self.resources[nr])+[self.resources[nr][-1]]*100
+        current_ressource_non_renewable = {nr: list(resources[nr])+[resources[nr][-1]]*100
                                            for nr in self.non_renewable}
         # if self.with_calendar:
         #     current_ressource_non_renewable = {r: current_ressource_non_renewable[r][0]
-- 
2.43.0


From 8e0dad553757a8aa0a3ecc11e8fee675586a8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 125/243] fix: the RCPSP executor returns the modes that it
 executes and keeps the list of its caller

---
 .../builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 0e50a73..bfd41aa 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -403,7 +403,7 @@ class Executor(PileSolverRCPSP):
                 current_pred[neighbor]["nb"] -= 1
                 if current_pred[neighbor]["nb"] == 0:
                     available_activities.add(neighbor)
-        permutation_jobs.remove(1)
+        permutation_jobs = [j for j in permutation_jobs if j != 1]
         queue = []
         current_time = 0
         perm = []
@@ -445,7 +445,7 @@ class Executor(PileSolverRCPSP):
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
-                            rcpsp_modes=[modes_dict[i+1]
+                            rcpsp_modes=[modes_dict[i+2]
                                          for i in range(self.n_jobs)],
                             rcpsp_schedule_feasible=True)
         result_storage = ResultStorage(list_solution_fits=[(sol,
-- 
2.43.0


From b88c4cc91e6ef8af441e4f9e2610206274c96c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 126/243] fix: constraint programming RCPSP solvers read the
 last solution when no intermediate ones are asked for

The solution object was compared with the result that holds it, so that
a custom output type raised a KeyError, which the large neighbourhood
search took for a failed iteration, and so did an infeasible model.
---
 .../rcpsp/solver/cp_solvers.py                     | 14 +++++++-------
 .../rcpsp_multiskill/solvers/cp_solvers.py         | 10 +++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index 53f84be..785a62e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -143,9 +143,9 @@ class CP_RCPSP_MZN(CPSolver):
                 else:
                     starts += [result[i, "s"]]
         else:
-            if isinstance(result, RCPSPSolCP):
-                starts += [result.dict["s"]]
-            else:
+            if isinstance(result.solution, RCPSPSolCP):
+                starts += [result.solution.dict["s"]]
+            elif result.solution is not None:
                 starts = [result["s"]]
 
         for start_times in starts:
@@ -379,10 +379,10 @@ class CP_MRCPSP_MZN(CPSolver):
                     mruns += [result[i, "mrun"]]
 
         else:
-            if isinstance(result, RCPSPSolCP):
-                starts += [result.dict["start"]]
-                mruns += [result.dict["mrun"]]
-            else:
+            if isinstance(result.solution, RCPSPSolCP):
+                starts += [result.solution.dict["start"]]
+                mruns += [result.solution.dict["mrun"]]
+            elif result.solution is not None:
                 starts = [result["start"]]
                 mruns = [result["mrun"]]
         for start_times, mrun in zip(starts, mruns):
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index f21cc0d..965e5c4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -274,11 +274,11 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                 # array_skill = result[i, "array_skills_required"]
                 # print("Objective : ", result[i, "objective"])
         else:
-            if isinstance(result, MS_RCPSPSolCP):
-                starts += [result.dict["start"]]
-                mruns += [result.dict["mrun"]]
-                units_used += [result.dict["unit_used"]]
-            else:
+            if isinstance(result.solution, MS_RCPSPSolCP):
+                starts += [result.solution.dict["start"]]
+                mruns += [result.solution.dict["mrun"]]
+                units_used += [result.solution.dict["unit_used"]]
+            elif result.solution is not None:
                 starts += [result["start"]]
                 mruns += [result["mrun"]]
                 units_used += [result["unit_used"]]
-- 
2.43.0


From 19147ccb59b453bfcde8d01145d60093b84f1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 127/243] fix: only a feasible start solution bounds the dates
 of the multi-mode linear program

The greedy schedule may use more of a non-renewable resource than there
is; its makespan is then no upper bound, and the model had no solution.
---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 1fcd8c7..8126522 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -269,9 +269,9 @@ class LP_MRCPSP(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)))
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p) + 1))
         # we have a better self.T to limit the number of variables :
-        if self.start_solution.rcpsp_schedule_feasible:
+        if self.start_solution.rcpsp_schedule_feasible and self.rcpsp_model.satisfy(self.start_solution):
             self.T = range(int(makespan+1))
         # model = Model()
         self.model = Model(sense=MINIMIZE,
-- 
2.43.0


From 049eff9bf5af56fc7a14c0dbc83d334ac1e8faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 128/243] fix: RCPSP solutions with different schedules are
 different

Solutions made from a schedule were equal when their activities start in
the same order, and a result storage dropped a better schedule that it
took for a known one.
---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 14c3c4b..2ed7d1e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -428,7 +428,8 @@ class RCPSPSolution(Solution):
         return hash((tuple(self.rcpsp_permutation), tuple(self.rcpsp_modes)))
 
     def __eq__(self, other):
-        return self.rcpsp_permutation == other.rcpsp_permutation and self.rcpsp_modes == other.rcpsp_modes
+        return self.rcpsp_permutation == other.rcpsp_permutation and self.rcpsp_modes == other.rcpsp_modes \
+            and self.rcpsp_schedule == other.rcpsp_schedule
     # def generate_schedule_from_permutation_serial_sgs(self):
     #     perm = self.rcpsp_permutation
     #     activity_end_times = {}
-- 
2.43.0


From a264c3f82c9f5bc761ec945a3c17e5ca0997a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 129/243] fix: a tour satisfies the TSP when it visits every
 point once

satisfy compared the first and last intermediate points, which never
contain the extremities, with them, and never returned True.
---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 22f5fcb..b88d80a 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -153,9 +153,8 @@ class TSPModel(Problem):
         # return obj
     
     def satisfy(self, var_tsp: SolutionTSP)->bool:
-        b = var_tsp.permutation[0] == self.start_index and var_tsp.permutation[-1] == self.end_index
-        if not b:
-            return False
+        return var_tsp.start_index == self.start_index and var_tsp.end_index == self.end_index \
+            and sorted(var_tsp.permutation) == self.ind_in_permutation
     
     def get_dummy_solution(self):
         var = SolutionTSP(problem=self, start_index=self.start_index,
-- 
2.43.0


From d9cc158c503a4754d561dc24cfe817608cb619de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 130/243] fix: the compiled tour length reports the length of
 every leg

The first leg was overwritten by the second one and, with two different
extremities, the legs were shifted.
---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index b88d80a..74f9489 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -262,17 +262,17 @@ def compute_length_np(start_index,
                       length_permutation)->Tuple[Union[List[float], np.array], float]:
     obj = np.sqrt((np_points[start_index, 0]-np_points[solution[0], 0])**2+\
                   (np_points[start_index, 1]-np_points[solution[0], 1])**2)
-    lengths = np.zeros((node_count))
+    lengths = np.zeros((length_permutation+1))
     lengths[0] = obj
     pp = obj
     for index in range(0, length_permutation-1):
         ll = math.sqrt((np_points[solution[index], 0]-np_points[solution[index+1], 0])**2+\
                        (np_points[solution[index], 1]-np_points[solution[index+1], 1])**2)
         obj += ll
-        lengths[index] = ll
-    lengths[node_count-1] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
+        lengths[index+1] = ll
+    lengths[length_permutation] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
                                     (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
-    obj += lengths[node_count-1]
+    obj += lengths[length_permutation]
     return lengths, obj
 
 def build_evaluate_function(tsp_model: TSPModel):
-- 
2.43.0


From 69d0c0aaf33d6e1248b7f5a1d2365d93c84ff037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 131/243] fix: the two encodings of a tour follow each other

Mutations of permutation_from0, the first encoding of the register, did
not change the tour that is evaluated.
---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py   | 1 +
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 23cb0d3..49de932 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -272,6 +272,7 @@ class SwapTSPMove(LocalMove):
         i1, i2 = self.swap
         v1, v2 = current[i1], current[i2]
         current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         i_before, i, j, j_after = get_points_index(i1, i2, solution, self.tsp_model.length_permutation)
         previous = solution.lengths[i1], solution.lengths[i1+1], solution.lengths[i2], solution.lengths[i2+1]
         solution.lengths[i1] = self.tsp_model.evaluate_function_indexes(i_before, current[i1])
diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 74f9489..e28b569 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -52,6 +52,15 @@ class SolutionTSP(Solution):
         if self.length is None:
             self.problem.evaluate(self)
 
+    def __setattr__(self, key, value):
+        # the two encodings of the tour follow each other
+        super().__setattr__(key, value)
+        if key in {"permutation", "permutation_from0"} and value is not None and getattr(self, "problem", None) is not None:
+            if key == "permutation":
+                super().__setattr__("permutation_from0", self.problem.convert_original_perm_to_perm_from0(value))
+            else:
+                super().__setattr__("permutation", self.problem.convert_perm_from0_to_original_perm(value))
+
     def copy(self):
         return SolutionTSP(problem=self.problem,
                            start_index=self.start_index,
-- 
2.43.0


From 55431f0c9105676a333ede6d2b8f456f0247d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 132/243] fix: a tour is evaluated again when its problem
 changes

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index e28b569..c560c08 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -87,8 +87,8 @@ class SolutionTSP(Solution):
                       start_index=self.start_index,
                       end_index=self.end_index,
                       permutation=list(self.permutation),
-                      lengths=list(self.lengths),
-                      length=self.length,
+                      lengths=None,
+                      length=None,
                       permutation_from0=deepcopy(self.permutation_from0))
 
 class Point:
-- 
2.43.0


From a2e9d48120a4568cb824df7705505ea06e815e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 133/243] fix: 2-opt moves report the lengths of the tour that
 they return

The number of tests could not be left to its default, a move that tested
no pair had an infinite length, and the move on intersections lost the
last legs and reported a number instead of objectives.
---
 .../tsp/mutation/mutation_tsp.py                     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 49de932..896ec6b 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -72,7 +72,7 @@ class Mutation2Opt(Mutation):
         self.length_permutation = tsp_model.length_permutation
         self.points = tsp_model.list_points
         self.test_all = test_all
-        self.nb_test = min(nb_test, self.node_count-1)
+        self.nb_test = None if nb_test is None else min(nb_test, self.node_count-1)
         self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
         self.return_only_improvement = return_only_improvement
         self.tsp_model = tsp_model
@@ -144,8 +144,13 @@ class Mutation2Opt(Mutation):
                     it = i
                     jt = j
                     min_change = change
-        fitness = variable.length+min_change
         i_before, i_, j_, j_after = self.get_points_index(it, jt, variable)
+        if min_change == float('inf'):  # no pair was tested
+            min_change = self.evaluate_function_indexes(i_before, j_)-\
+                         self.evaluate_function_indexes(i_before, i_)-\
+                         self.evaluate_function_indexes(j_, j_after)+\
+                         self.evaluate_function_indexes(i_, j_after)
+        fitness = variable.length+min_change
         permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
         lengths = []
         if it > 0:
@@ -210,7 +215,7 @@ class Mutation2OptIntersection(Mutation2Opt):
                                      nb_tests=min(3000, self.node_count-2))
             self.i_j_pairs = ints
             if len(self.i_j_pairs) == 0:
-                return variable, LocalMoveDefault(variable, variable), variable.length
+                return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         min_change = float('inf')
         perm = variable.permutation
         for i, j in self.i_j_pairs:
@@ -232,6 +237,7 @@ class Mutation2OptIntersection(Mutation2Opt):
         lengths += [self.evaluate_function_indexes(i_before, j_)]
         lengths += variable.lengths[it+1:jt+1][::-1]
         lengths += [self.evaluate_function_indexes(i_, j_after)]
+        lengths += variable.lengths[jt+2:]
         if False:
             print(len(variable.lengths))
             print(len(lengths))
-- 
2.43.0


From c269d158b19354ad480397fc289ea2370a7892a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 134/243] fix: importing the TSP tools keeps the working
 directory

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 08d9df5..6bcace3 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -8,7 +8,6 @@ import numpy as np
 import matplotlib.pyplot as plt
 from skdecide.builders.discrete_optimization.tsp.tsp_model import Point2D, length
 this_path = os.path.dirname(os.path.abspath(__file__))
-os.chdir(this_path)
 
 
 def length_1(point1, point2):
-- 
2.43.0


From 5f44f955feaa6ecc393d782cbb9f6744fba9af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 135/243] fix: the default distance matrix is the one of the
 points

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 6bcace3..169f99b 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -52,7 +52,7 @@ def baseline_in_order(nodeCount: int, points: List[Point2D]):
 
 def build_matrice_distance(nodeCount: int, points: List[Point2D], method=None):
     if method is None:
-        method = length
+        method = lambda i, j: length(points[i], points[j])
     matrix = np.zeros((nodeCount, nodeCount))
     for i in range(nodeCount):
         for j in range(i+1, nodeCount):
-- 
2.43.0


From 7bfb33490d855dcb53730cdb72b32c013c1caa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 136/243] fix: the closest point heuristic accepts points at
 the same place

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 169f99b..f7acd33 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -86,7 +86,7 @@ def closest_greedy(nodeCount: int, points: List[Point2D]):
     sol = [0]
     length_circuit = 0.
     index_in_sol = set([0])
-    s = sd[:, 1:]
+    s = sd
     # print(matrix.shape)
     # print(s.shape)
     # print(s)
-- 
2.43.0


From 497d025cd119aecf6cdc5b2b2004bed4e31378af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 137/243] fix: the routing solver of the TSP uses the distances
 of the problem

Distances were rounded down before they were scaled, and points were
given instead of their indexes for large problems.
---
 .../discrete_optimization/tsp/solver/solver_ortools.py       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 83e7816..5ee0a92 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(int))
+            distance_matrix = (10**6*matrix).astype(int)
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
@@ -38,8 +38,7 @@ class TSP_ORtools(SolverDO):
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
-                return int(10**6*self.tsp_model.evaluate_function_indexes(self.list_points[from_node], 
-                                                                          self.list_points[to_node]))
+                return int(10**6*self.tsp_model.evaluate_function_indexes(from_node, to_node))
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.node_count,
                                                1, 
-- 
2.43.0


From 19b0a0805cbc054cfe0c1616f42e6f369bb596d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 138/243] fix: knapsack selections given with a value but no
 weight are evaluated, and satisfy recomputes when asked to

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..6a9dba3 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -99,7 +99,7 @@ class KnapsackModel(Problem):
         return objectives
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-        if knapsack_solution.value is None or self.force_recompute_values:
+        if knapsack_solution.value is None or knapsack_solution.weight is None or self.force_recompute_values:
             val = self.evaluate_value(knapsack_solution)
         else:
             val = knapsack_solution.value
@@ -121,7 +121,7 @@ class KnapsackModel(Problem):
                    knapsack_solution.weight - self.max_capacity)
 
     def satisfy(self, knapsack_solution: KnapsackSolution):
-        if knapsack_solution.value is None:
+        if knapsack_solution.value is None or knapsack_solution.weight is None or self.force_recompute_values:
             self.evaluate(knapsack_solution)
         return knapsack_solution.weight <= self.max_capacity
 
-- 
2.43.0


From 2d9ea57ea751d76e08dbd703e679fb0c7c5c9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 139/243] fix: a knapsack selection moved to another problem
 forgets its value and weight

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 6a9dba3..7a5e3ea 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -38,8 +38,6 @@ class KnapsackSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      value=self.value,
-                      weight=self.weight,
                       list_taken=list(self.list_taken))
 
     def __str__(self):
-- 
2.43.0


From ac87e00e56884e4db625e81259f1c76949558fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 140/243] fix: equal knapsack selections have equal hashes

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 7a5e3ea..d456ab0 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -47,7 +47,7 @@ class KnapsackSolution(Solution):
         return s
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(tuple(self.list_taken))
 
     def __eq__(self, other):
         return self.list_taken == other.list_taken
-- 
2.43.0


From b8744bdda2f82341eab571ab4b33a49804b5ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 141/243] fix: the objective register of the multi-objective
 knapsack has a sense

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index d456ab0..68faccf 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -152,7 +152,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-- 
2.43.0


From e8b8568ecdb1e1b2982b016288e36aefaf60ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 142/243] fix: knapsack solvers and their neighbourhoods work
 with any item indexes

---
 .../knapsack/solvers/cp_solvers.py             | 13 ++++++-------
 .../knapsack/solvers/dyn_prog_knapsack.py      |  4 ++--
 .../knapsack/solvers/greedy_solvers.py         |  2 +-
 .../knapsack/solvers/knapsack_lns_solver.py    |  7 ++++---
 .../knapsack/solvers/lp_solvers.py             | 18 +++++++++---------
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
index 5f01035..03864d1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
@@ -39,7 +39,7 @@ class CPKnapsackMZN(CPSolver):
             value = 0
             for i in range(len(items)):
                 if items[i] != 0:
-                    taken[self.knapsack_model.list_items[items[i] - 1].index] = 1
+                    taken[items[i] - 1] = 1
                     weight += self.knapsack_model.list_items[items[i] - 1].weight
                     value += self.knapsack_model.list_items[items[i] - 1].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -114,7 +114,7 @@ class CPKnapsackMZN2(CPSolver):
             value = 0
             for i in range(len(items_taken)):
                 if items_taken[i] != 0:
-                    taken[self.knapsack_model.list_items[i].index] = 1
+                    taken[i] = 1
                     weight += self.knapsack_model.list_items[i].weight
                     value += self.knapsack_model.list_items[i].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -135,7 +135,7 @@ class CPKnapsackMZN2(CPSolver):
         value = 0
         for i in range(len(items_taken)):
             if items_taken[i] != 0:
-                taken[self.knapsack_model.list_items[i].index] = 1
+                taken[i] = 1
                 weight += self.knapsack_model.list_items[i].weight
                 value += self.knapsack_model.list_items[i].value
         return [KnapsackSolution(problem=self.knapsack_model,
@@ -146,7 +146,7 @@ class CPKnapsackMZN2(CPSolver):
                   fraction_decision_fixed: float, 
                   nb_iteration_max: int, 
                   max_time_per_iteration_s: float, save_results=True):
-        taken_current_solution = [init_solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+        taken_current_solution = list(init_solution.list_taken)
         current_objective = init_solution.value
         nb_items = self.knapsack_model.nb_items
         range_item = list(range(nb_items))
@@ -169,8 +169,7 @@ class CPKnapsackMZN2(CPSolver):
                     current_objective = res["objective"]
                     iteration += 1
                     current_solution = solution
-                    taken_current_solution = [solution.list_taken[item.index]
-                                              for item in self.knapsack_model.list_items]
+                    taken_current_solution = list(solution.list_taken)
                     print("Improved ", current_objective)
                     if save_results:
                         results["taken"] += [taken_current_solution]
@@ -180,7 +179,7 @@ class CPKnapsackMZN2(CPSolver):
                     iteration += 1
                     if res.solution is not None:
                         objective = res["objective"]
-                        taken_solution = [solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+                        taken_solution = list(solution.list_taken)
                         if save_results:
                             results["taken"] += [taken_solution]
                             results["objective"] += [objective]
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..e776cf8 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -126,7 +126,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..eb48c6d 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -28,7 +28,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     sorted_per_density = method_queue(knapsack_model)
     for i in range(len(taken)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
index 599ae46..1b83954 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
@@ -54,14 +54,15 @@ class ConstraintHandlerKnapsack(ConstraintHandler):
         dict_f_start = {}
         start = []
         for c in range(self.problem.nb_items):
-            dict_f_start[c] = current_solution.list_taken[c]
+            key = self.problem.list_items[c].index
+            dict_f_start[key] = current_solution.list_taken[c]
             if c in subpart_item:
-                dict_f_fixed[c] = dict_f_start[c]
+                dict_f_fixed[key] = dict_f_start[key]
         x_var = milp_solver.variable_decision["x"]
         lns_constraint = {}
         for key in x_var:
             start += [(x_var[key], dict_f_start[key])]
-            if key in subpart_item:
+            if key in dict_f_fixed:
                 lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[key],
                                                                    name=str(key))
         if milp_solver.milp_solver_name == MilpSolverName.GRB:
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index e39adb3..89fd601 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -82,7 +82,7 @@ class LPKnapsackGurobi(SolverDO):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=obj,
                                            weight=weight, 
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
         return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -147,13 +147,13 @@ class LPKnapsackGurobi(SolverDO):
 
     def add_init_solution(self, init_solution: KnapsackSolution):
         for i in self.variable_decision["x"]:
-            self.variable_decision["x"][i].start = init_solution.list_taken[i]
-            self.variable_decision["x"][i].varhintval = init_solution.list_taken[i]
+            self.variable_decision["x"][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
+            self.variable_decision["x"][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
 
     def fix_decision(self,  init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -226,7 +226,7 @@ class LPKnapsackCBC(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                  value=objective,
                                  weight=weight, 
-                                 list_taken=[xs[e] for e in sorted(xs)])
+                                 list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -306,7 +306,7 @@ class LPKnapsack(MilpSolver):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=value_kp,
                                            weight=weight,
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
             print(self.aggreg_sol)
 
@@ -363,13 +363,13 @@ class LPKnapsack(MilpSolver):
     def add_init_solution(self, init_solution: KnapsackSolution):
         start = []
         for i in self.variable_decision["x"]:
-            start += [(self.variable_decision["x"][i], init_solution.list_taken[i])]
+            start += [(self.variable_decision["x"][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
         self.model.start = start
 
     def fix_decision(self, init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -414,7 +414,7 @@ class KnapsackORTools(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                value=value,
                                weight=weight,
-                               list_taken=[xs[e] for e in sorted(xs)])
+                               list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
-- 
2.43.0


From cceba91bf121ea8523a038c2fab7bb7e94aae0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 143/243] fix: the knapsack dynamic programme accepts items
 heavier than the capacity with a greedy start

---
 .../knapsack/solvers/dyn_prog_knapsack.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index e776cf8..3827250 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -44,7 +44,7 @@ class KnapsackDynProg(SolverDO):
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
-        for nb_item in range(1, max_items):
+        for nb_item in range(1, min(max_items, len(index_promising)+1)):
             if do_time:
                 if time.time()-t_start > max_time_seconds:
                     break
@@ -105,7 +105,7 @@ class KnapsackDynProg(SolverDO):
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
-        for nb_item in range(1, max_items):
+        for nb_item in range(1, min(max_items, len(index_promising)+1)):
             if do_time:
                 if time.time()-t_start > max_time_seconds:
                     break
-- 
2.43.0


From 62e646409c5afb614bf47a907ba0ead0b3f94a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 144/243] fix: the vectorised knapsack dynamic programme only
 takes items that fit

---
 .../discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 3827250..8799c3a 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -114,7 +114,7 @@ class KnapsackDynProg(SolverDO):
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
             ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
+            vec_2 = np.where(np.arange(self.capacity+1) >= weight, vec_1[ind]+value, vec_1)
             self.table[nb_item, :] = np.maximum(vec_1, vec_2)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
-- 
2.43.0


From a81c5d95822deae015eeb9a0a40b6529b9cb3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 145/243] fix: the greedy knapsack accepts items heavier than
 the capacity

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index eb48c6d..0e2a4ab 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,7 +26,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
             taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
-- 
2.43.0


From 44bebffa453fb8d5733a72fcc6852477621dd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 146/243] fix: the single bit flip evaluates the mutated
 knapsack selection

---
 .../knapsack/mutation/mutation_knapsack.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..616a5d4 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -51,7 +51,7 @@ class KnapsackMutationSingleBitFlip(Mutation):
             obj = {'value': new_value,
                    'weight_violation': max(0, new_weight - self.problem.max_capacity)}
         else:
-            obj = self.problem.evaluate(solution)
+            obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
-- 
2.43.0


From f1a5b25264f8ef91712b5b72b6e1bea66684de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 147/243] fix: the knapsack mutation accepts worthless items

---
 .../knapsack/mutation/mutation_knapsack.py                 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 616a5d4..532d4df 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -101,7 +101,7 @@ class MutationKnapsack(Mutation):
         self.list_items = knapsack_model.list_items
         self.profit_per_capacity = [self.list_items[i].value / self.list_items[i].weight for i in range(self.nb_items)]
         self.sum = np.sum(self.profit_per_capacity)
-        self.profit_per_capacity /= self.sum
+        self.profit_per_capacity = np.array(self.profit_per_capacity) / (self.sum if self.sum > 0 else 1)
         self.sorted_by_utility = np.argsort(self.profit_per_capacity)
         self.attribute = attribute
         if attribute is None:
@@ -114,7 +114,7 @@ class MutationKnapsack(Mutation):
                     and variable.weight + self.list_items[i].weight <= self.knapsack_model.max_capacity]
         if len(not_used) > 0:
             proba = np.array([self.profit_per_capacity[i] for i in not_used])
-            proba = proba / np.sum(proba)
+            proba = proba / np.sum(proba) if np.sum(proba) > 0 else None
             index = np.random.choice(not_used, size=1, p=proba)[0]
             move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
             sol = move.apply_local_move(variable)
@@ -130,7 +130,8 @@ class MutationKnapsack(Mutation):
     def switch_off(self, variable: KnapsackSolution, come_from_outside=False):
         used = [i for i in range(self.nb_items) if variable.list_taken[i] == 1]
         if len(used) > 0:
-            proba = np.array([1 / self.profit_per_capacity[i] for i in used])
+            profits = np.array([self.profit_per_capacity[i] for i in used])
+            proba = 1 / profits if np.all(profits > 0) else np.where(profits > 0, 0., 1.)
             proba = proba / np.sum(proba)
             index = np.random.choice(used, size=1, p=proba)[0]
             move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
-- 
2.43.0


From 343d18434a53fdd4841dc875caeefbe216bce0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 148/243] fix: knapsack moves do not trust cached values when
 the model recomputes them

---
 .../knapsack/mutation/mutation_knapsack.py                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 532d4df..359d8e6 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -41,7 +41,7 @@ class KnapsackMutationSingleBitFlip(Mutation):
         move = SingleBitFlipMove(i, self.problem)
         new_sol = move.apply_local_move(solution)
 
-        if solution.weight is not None:
+        if solution.weight is not None and not self.problem.force_recompute_values:
             if new_sol.list_taken[i] == 0:
                 new_weight = solution.weight - self.problem.list_items[i].weight
                 new_value = solution.value - self.problem.list_items[i].value
@@ -69,7 +69,7 @@ class BitFlipMoveKP(LocalMove):
         self.list_index_flip = list_index_flip
 
     def apply_local_move(self, solution: KnapsackSolution) -> Solution:
-        if solution.weight is None:
+        if solution.weight is None or self.problem.force_recompute_values:
             self.problem.evaluate(solution)
         l = getattr(solution, self.attribute)
         weight = solution.weight
@@ -150,7 +150,7 @@ class MutationKnapsack(Mutation):
         return s, m
 
     def mutate_and_compute_obj(self, variable: KnapsackSolution) -> Tuple[KnapsackSolution, LocalMove, Dict[str, float]]:
-        if variable.weight is None:
+        if variable.weight is None or self.knapsack_model.force_recompute_values:
             self.knapsack_model.evaluate(variable)
         r = random.random()
         if r < 0.8:
-- 
2.43.0


From 0b7e00615672b507a05e633d2e60c7836cf5c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 149/243] fix: both knapsack CP solvers name their parameters
 alike

---
 .../discrete_optimization/knapsack/solvers/cp_solvers.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
index 03864d1..bb158d5 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
@@ -124,10 +124,10 @@ class CPKnapsackMZN2(CPSolver):
         return ResultStorage(list_solution_fits=list_solution_fits, best_solution=None,
                              mode_optim=self.params_objective_function.sense_function)
 
-    def solve(self, parameter_cp: ParametersCP=ParametersCP.default(), **args):
-        result = self.instance.solve(timeout=timedelta(seconds=parameter_cp.TimeLimit),
-                                     intermediate_solutions=parameter_cp.intermediate_solution)
-        return self.retrieve_solutions(result=result, parameters_cp=parameter_cp)
+    def solve(self, parameters_cp: ParametersCP=ParametersCP.default(), **args):
+        result = self.instance.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit),
+                                     intermediate_solutions=parameters_cp.intermediate_solution)
+        return self.retrieve_solutions(result=result, parameters_cp=parameters_cp)
 
     def retrieve(self, items_taken):
         taken = [0]*self.knapsack_model.nb_items
-- 
2.43.0


From b16154b146235ba8eb298e1a55ce3dd0a311151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 150/243] fix: the knapsack solvers of the catalogue can be
 built and called

---
 .../discrete_optimization/knapsack/knapsack_solvers.py      | 4 ++--
 .../discrete_optimization/knapsack/solvers/lp_solvers.py    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py
index f64ee83..7050db1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py
@@ -7,8 +7,8 @@ from skdecide.builders.discrete_optimization.knapsack.knapsack_model import Knap
 from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
 solvers = {"lp":[(KnapsackORTools, {}),
                  (LPKnapsackCBC, {}),
-                 (LPKnapsackGurobi, {"parameter_gurobi": ParametersMilp.default()},
-                 (LPKnapsack, {"solver_name": CBC, "limit_time_s": 10}))],
+                 (LPKnapsackGurobi, {"parameter_gurobi": ParametersMilp.default()}),
+                 (LPKnapsack, {"solver_name": CBC, "parameters_milp": ParametersMilp.default()})],
            "greedy": [(GreedyBest,  {})], 
            "cp": [(CPKnapsackMZN, {}),
                   (CPKnapsackMZN2, {})],
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 89fd601..2a42480 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -162,7 +162,7 @@ class LPKnapsackGurobi(SolverDO):
 
 class LPKnapsackCBC(SolverDO):
     def __init__(self, knapsack_model: KnapsackModel,
-                 params_objective_function: ParamsObjectiveFunction):
+                 params_objective_function: ParamsObjectiveFunction=None):
         self.knapsack_model = knapsack_model
         self.model = None
         self.variable_decision = {}
@@ -238,7 +238,7 @@ class LPKnapsackCBC(SolverDO):
 # Can use GRB or CBC
 class LPKnapsack(MilpSolver):
     def __init__(self, knapsack_model: KnapsackModel,
-                 milp_solver_name: MilpSolverName,
+                 milp_solver_name: MilpSolverName=MilpSolverName.CBC,
                  params_objective_function: ParamsObjectiveFunction=None):
         self.knapsack_model = knapsack_model
         self.model: MyModelMilp = None
@@ -378,7 +378,7 @@ class LPKnapsack(MilpSolver):
 
 class KnapsackORTools(SolverDO):
     def __init__(self, knapsack_model: KnapsackModel,
-                 params_objective_function: ParamsObjectiveFunction):
+                 params_objective_function: ParamsObjectiveFunction=None):
         self.knapsack_model = knapsack_model
         self.model = None
         self.aggreg_sol, self.aggreg_dict, self.params_objective_function = \
-- 
2.43.0


From e567694cc360b413376d59073a8f188d1652f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 151/243] fix: evaluate the colours a colouring has now, not
 the counts kept from before an edit

---
 .../discrete_optimization/coloring/coloring_model.py         | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 0733eb8..7ea390c 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -85,9 +85,8 @@ class ColoringProblem(Problem):
         #     counter += 1
 
     def evaluate(self, variable: ColoringSolution) -> Dict[str, float]:
-        if variable.nb_color is None:
-            variable.nb_color = len(set(variable.colors))
-            variable.nb_violations = self.count_violations(variable)
+        variable.nb_color = len(set(variable.colors))
+        variable.nb_violations = self.count_violations(variable)
         return {"nb_colors": variable.nb_color, "nb_violations": variable.nb_violations}
 
     def satisfy(self, variable: ColoringSolution) -> bool:
-- 
2.43.0


From 8f8431f843d00b37e31e024bc36c9f325a8f2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 152/243] fix: forget the violations of a colouring moved to
 another problem

---
 .../builders/discrete_optimization/coloring/coloring_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 7ea390c..bc5a9b0 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -54,7 +54,7 @@ class ColoringSolution(Solution):
                       colors=list(self.colors),
                       # colors_from0=list(self.colors_from0),
                       nb_color=self.nb_color,
-                      nb_violations=self.nb_violations)
+                      nb_violations=None)
 
 
 def transform_color_values_to_value_precede(color_vector: List[int]):
-- 
2.43.0


From 07361f8aabf67a38d7fe5bddf03e3bc75515a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 153/243] fix: tell when all the cliques were enumerated

---
 .../builders/discrete_optimization/coloring/coloring_toolbox.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 2509957..50fcfe2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -4,6 +4,7 @@ import networkx as nx
 def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
+    not_all = False
     for c in nx.algorithms.clique.find_cliques(g):
         print(c)
         cliques += [c]
-- 
2.43.0


From e471c79f3b262dad501c618dd2a458d0bc64ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 154/243] fix: colour graphs of any node names with the linear
 models

---
 .../coloring/solvers/coloring_lp_solvers.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index 61fc3f0..b533b5b 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -60,7 +60,7 @@ class ColoringLP(MilpSolver):
                                                              obj=0,
                                                              name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.addConstr(quicksum([colors_var[n, c] for c in range_color]) == 1)
         color_model.update()
         cliques = []
@@ -91,7 +91,7 @@ class ColoringLP(MilpSolver):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.addConstr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.addConstr(quicksum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         color_model.update()
         color_model.modelSense = GRB.MINIMIZE
@@ -179,7 +179,7 @@ class ColoringLP_MIP(ColoringLP):
                                                               obj=0,
                                                               name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.add_constr(xsum([colors_var[n, c] for c in range_color]) == 1)
         cliques = []
         g = self.graph.to_networkx()
@@ -209,7 +209,7 @@ class ColoringLP_MIP(ColoringLP):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.add_constr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.add_constr(xsum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         self.model = color_model
         self.variable_decision = {"colors_var": colors_var}
-- 
2.43.0


From f1c375013ae49acb17eefc6f49f673a8949d2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 155/243] fix: call the DSATUR strategy by the name networkx
 knows

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From 5b265839c3836988d8b65e8e9572caff2d3da7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 156/243] fix: run the colouring LNS on the model made for it

---
 .../coloring/solvers/coloring_cp_solvers.py                      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
index c235529..b2783ce 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
@@ -160,6 +160,7 @@ class ColoringCP(CPSolver):
         dict_color = {i+1: first_solution.colors[i]+1 for i in range(self.number_of_nodes)}
         nb_colors = first_solution.nb_color
         kwargs["nb_colors"] = nb_colors
+        kwargs["cp_model"] = ColoringCPModel.LNS  # the only model without its own solve item
         self.init_model(**kwargs)
         limit_time_s = kwargs.get("limit_time_s", 100)
         range_node = range(1, self.number_of_nodes+1)
-- 
2.43.0


From 86125077c1433500fac34b3688595ec2846cb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 157/243] fix: honour the number of cliques asked of the
 colouring CP model

---
 .../coloring/solvers/coloring_cp_solvers.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
index b2783ce..8165930 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
@@ -73,7 +73,7 @@ class ColoringCP(CPSolver):
         g.add_edges_from(edges)
         self.g = g
         if model_type == ColoringCPModel.CLIQUES:
-            cliques, not_all = compute_cliques(g, 200)
+            cliques, not_all = compute_cliques(g, nb_cliques)
             instance["cliques"] = [set(c) for c in cliques]
             instance["n_cliques"] = len(instance["cliques"])
             instance["all_cliques"] = not not_all
-- 
2.43.0


From 57e669a373208fb7cba3d8f3ec015730ba82e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 158/243] fix: count the edges the colouring CP model is given

---
 .../coloring/solvers/coloring_cp_solvers.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
index 8165930..75424ab 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
@@ -61,7 +61,7 @@ class ColoringCP(CPSolver):
         instance = Instance(solver, self.model)
         # Assign 4 to n
         instance["n_nodes"] = self.number_of_nodes
-        instance["n_edges"] = int(self.number_of_edges/2)
+        instance["n_edges"] = len(self.coloring_problem.graph.edges)
         instance["nb_colors"] = nb_colors
         print("nb colors ", nb_colors)
         keys = ["n_nodes", "n_edges", "nb_colors"]
-- 
2.43.0


From 30ce39888fa3c3f1a6403d419413916f6306b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 159/243] fix: count the capacity violations of every facility,
 not of the last one

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..6fe6432 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -61,7 +61,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
-- 
2.43.0


From e4f29006ebcdeb409a59887329c2933d95d4ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 160/243] fix: forget the costs of an assignment moved to
 another facility problem

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 6fe6432..725267e 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -39,7 +39,7 @@ class FacilitySolution(Solution):
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
                       facility_for_customers=list(self.facility_for_customers),
-                      dict_details=deepcopy(self.dict_details))
+                      dict_details=None)
 
 class FacilityProblem(Problem):
     def __init__(self, facility_count: int,
-- 
2.43.0


From 97c7d15a61f9076071da7c7360d656e0a78f6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 161/243] fix: skip the facilities too small for the next
 customer in the greedy filling

---
 .../discrete_optimization/facility/solvers/greedy_solvers.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
index 754caa2..3cb9a10 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
@@ -26,8 +26,8 @@ class GreedySolverFacility(SolverDO):
                 solution[index] = facility_index
                 capacity_remaining[facility_index] -= customer.demand
             else:
-                facility_index += 1
-                assert capacity_remaining[facility_index] >= customer.demand
+                while capacity_remaining[facility_index] < customer.demand:
+                    facility_index += 1
                 solution[index] = facility_index
                 capacity_remaining[facility_index] -= customer.demand
         sol = FacilitySolution(problem=self.facility_problem,
-- 
2.43.0


From cdca03e1ef3c402929ac1b230bc02e06b626a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 162/243] fix: start the facility neighbourhood searches from
 the greedy solution

---
 .../facility/solvers/facility_cp_solvers.py                 | 2 +-
 .../facility/solvers/facility_lp_solver.py                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
index a349ff1..e0ceb0f 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
@@ -85,7 +85,7 @@ class FacilityCP(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
         else:
             if verbose:
                 print("Get dummy solution")
diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 4f1a6fe..8affdd2 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -212,7 +212,7 @@ class LP_Facility_Solver(MilpSolver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -382,7 +382,7 @@ class LP_Facility_Solver_CBC(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -559,7 +559,7 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
-- 
2.43.0


From 85565cb853977848c34cc61d1b63504129e5a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 163/243] fix: run the facility LNS on the model made for it

---
 .../facility/solvers/facility_cp_solvers.py                      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
index e0ceb0f..46f31f7 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
@@ -99,6 +99,7 @@ class FacilityCP(SolverDO):
         first_solution = self.get_solution(**kwargs)
         dict_color = {i+1: first_solution.facility_for_customers[i]+1
                       for i in range(self.facility_problem.customer_count)}
+        kwargs["cp_model"] = FacilityCPModel.DEFAULT_INT_LNS  # the only model without its own solve item
         self.init_model(**kwargs)
         limit_time_s = kwargs.get("limit_time_s", 100)
         range_node = range(1, self.facility_problem.customer_count+1)
-- 
2.43.0


From 790f1135eccfbba418a3cacf699db7517d77734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 164/243] fix: lift the facility LNS constraints of the
 or-tools model

---
 .../facility/solvers/facility_lp_solver.py                     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8affdd2..321304a 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -366,7 +366,8 @@ class LP_Facility_Solver_CBC(SolverDO):
 
     def remove_lns_constraint(self):
         for k in self.constraints_dict["lns"]:
-            self.model.remove(self.constraints_dict["lns"][k])
+            # or-tools has no removal of constraints: leave this one without bounds
+            self.constraints_dict["lns"][k].SetBounds(-self.model.infinity(), self.model.infinity())
 
     def solve_lns(self,
                   fraction_to_fix_first_iter: float=0.,
-- 
2.43.0


From 23e5e8be3d57584c7f93a5f127d4cee269ff1cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 165/243] fix: make the facility LNS of the python-mip model
 fix its customers

---
 .../facility/solvers/facility_lp_solver.py                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 321304a..0f45923 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -528,13 +528,13 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             if c in dict_f_fixed:
                 if f == dict_f_fixed[c]:
                     try:
-                        lns_constraint[(f, c)] = self.model.addConstr(x_var[key] == 1, name=str((f, c)))
+                        lns_constraint[(f, c)] = self.model.add_constr(x_var[key] == 1, name=str((f, c)))
                     except:
                         print("failed")
                         pass
                 else:
                     try:
-                        lns_constraint[(f, c)] = self.model.addConstr(x_var[key] == 0, name=str((f, c)))
+                        lns_constraint[(f, c)] = self.model.add_constr(x_var[key] == 0, name=str((f, c)))
                     except:
                         pass
         self.constraints_dict["lns"] = lns_constraint
@@ -572,7 +572,7 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
         for i in range(nb_iteration):
             print('i, ', i)
             self.fix_decision(current_solution, fraction_to_fix if i>0 else fraction_to_fix_first_iter)
-            cur_sol, fit = self.solve(**kwargs)
+            cur_sol, fit = self.solve(**kwargs).get_best_solution_fit()
             self.remove_lns_constraint()
             print(cur_sol)
             current_solution = cur_sol
-- 
2.43.0


From 144a5dd2f8c961c940a3a43b638f64d3a7408c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 166/243] fix: do not hold customers to facilities pruned from
 the LNS model

---
 .../facility/solvers/facility_lp_lns_solver.py                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py
index 9533c3c..166b252 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py
@@ -64,6 +64,8 @@ class ConstraintHandlerFacility(ConstraintHandler):
             if c in subpart_customer:
                 dict_f_fixed[c] = dict_f_start[c]
         x_var = milp_solver.variable_decision["x"]
+        # a pair that was pruned from the model cannot be kept
+        dict_f_fixed = {c: f for c, f in dict_f_fixed.items() if isinstance(x_var[f, c], mip.Var)}
         lns_constraint = {}
         for key in x_var:
             f, c = key
-- 
2.43.0


From 91ef139a1470de3bdd39f80aa97fdae46d408c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 167/243] fix: keep the true best of the facility CP
 neighbourhood search, whose objective is rounded

---
 .../facility/solvers/facility_cp_solvers.py         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
index 46f31f7..d611389 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
@@ -119,10 +119,15 @@ class FacilityCP(SolverDO):
                 print("Solving... ", iteration)
                 res = child.solve(timeout=timedelta(seconds=limit_time_s))
                 print(res.status)
-                if res.solution is not None and -res["objective"] > current_objective:
-                    current_objective = -res["objective"]
-                    current_best_solution = FacilitySolution(self.facility_problem,
-                                                             [f-1 for f in res["facility_for_customer"]])
+                new_solution, new_objective = None, None
+                if res.solution is not None:
+                    new_solution = FacilitySolution(self.facility_problem,
+                                                    [f-1 for f in res["facility_for_customer"]])
+                    # the objective of the model is rounded
+                    new_objective = self.aggreg(self.facility_problem.evaluate(new_solution))
+                if new_solution is not None and new_objective > current_objective:
+                    current_objective = new_objective
+                    current_best_solution = new_solution
                     fit = self.facility_problem.evaluate(current_best_solution)
                     dict_color = {i + 1: current_best_solution.facility_for_customers[i]+1
                                   for i in range(self.facility_problem.customer_count)}
-- 
2.43.0


From 00ff0d30840c133b8c3fed666f0dd6945ddc3efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 168/243] fix: check that VRP solutions serve every customer
 once

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 11d0ac5..ab6daba 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -96,7 +96,10 @@ class VrpProblem(Problem):
 
     def satisfy(self, variable: VrpSolution) -> bool:
         d = self.evaluate(variable)
-        return d["capacity_violation"] == 0
+        depots = set(self.start_indexes).union(self.end_indexes)
+        customers = [c for c in range(self.customer_count) if c not in depots]
+        visited = sorted(c for path in variable.list_paths for c in path)
+        return d["capacity_violation"] == 0 and visited == customers
 
     def get_attribute_register(self) -> EncodingRegister:
         dict_encoding = {"list_paths": {"name": "list_paths", "type": [TypeAttribute.LIST_INTEGER]}}
-- 
2.43.0


From 67e3e6b6fbea1ef40e760a76103cddc1c22a35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 169/243] fix: forget the lengths of VRP routes moved to
 another problem

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index ab6daba..5c7eb0e 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -49,8 +49,7 @@ class VrpSolution(Solution):
         self.__init__(problem=new_problem,
                       list_start_index=self.list_start_index,
                       list_end_index=self.list_end_index,
-                      list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),
-                      length=self.length, capacities=deepcopy(self.capacities))
+                      list_paths=deepcopy(self.list_paths))
 
 
 class BasicCustomer:
-- 
2.43.0


From 1882692722dafb72b823f27cf04c5cfecdf5c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 170/243] fix: build the VRP graph with the networkx function
 that exists

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index d7c1ae1..be765ea 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -36,7 +36,7 @@ def prune_search_space(vrp_model: VrpProblem,
 def build_graph(vrp_model: VrpProblem):
     matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model,
                                                            n_shortest=vrp_model.customer_count)
-    G = nx.from_numpy_matrix(matrix_adjacency, create_using=nx.DiGraph)
+    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
     G.add_edge(0, 0, weight=0)
     return G, matrix_distance
 
-- 
2.43.0


From 3a7b1f7d964aca40e06985f9bed97331c769a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 171/243] fix: do not truncate the distances of pruned VRP
 graphs

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index be765ea..dfabadf 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=int)
+    matrix_adjacency = np.zeros(matrix_distance.shape)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
-- 
2.43.0


From 183bcd130b9c616d674e2da979ef09f092db70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 172/243] fix: keep the linear VRP routes from re-entering
 their start or leaving their end

---
 .../discrete_optimization/vrp/solver/lp_vrp_iterative.py   | 7 +++++++
 .../vrp/solver/lp_vrp_iterative_pymip.py                   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
index ff9aa24..f7885ff 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
@@ -344,6 +344,13 @@ def init_model_lp(g,
     #         constraint_flow_out[customer] = tsp_model.addConstr(quicksum([x_var[e]
     #                                                                       for e in edges_out_customers[customer]]) == 1,
     #                                                             name="outs_"+str(customer))
+    for v in range(vehicle_count):
+        if start_indexes[v] != end_indexes[v]:
+            # A route never comes back to its start and never leaves its end.
+            tsp_model.addConstr(quicksum([x_var[e] for e in edges_in_merged_graph[(v, start_indexes[v])]]) == 0,
+                        name="start_in_v_"+str(v))
+            tsp_model.addConstr(quicksum([x_var[e] for e in edges_out_merged_graph[(v, end_indexes[v])]]) == 0,
+                        name="end_out_v_"+str(v))
     c_flow = {}
     for n in edges_in_merged_graph:
         if start_indexes[n[0]] == end_indexes[n[0]] \
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
index fb4f9dd..e8d7298 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
@@ -120,6 +120,13 @@ def init_model_lp(g,
     #         constraint_flow_out[customer] = tsp_model.addConstr(quicksum([x_var[e]
     #                                                                       for e in edges_out_customers[customer]]) == 1,
     #                                                             name="outs_"+str(customer))
+    for v in range(vehicle_count):
+        if start_indexes[v] != end_indexes[v]:
+            # A route never comes back to its start and never leaves its end.
+            tsp_model.add_constr(xsum([x_var[e] for e in edges_in_merged_graph[(v, start_indexes[v])]]) == 0,
+                         name="start_in_v_"+str(v))
+            tsp_model.add_constr(xsum([x_var[e] for e in edges_out_merged_graph[(v, end_indexes[v])]]) == 0,
+                         name="end_out_v_"+str(v))
     c_flow = {}
     for n in edges_in_merged_graph:
         if start_indexes[n[0]] == end_indexes[n[0]] \
-- 
2.43.0


From 38180ad0fe588d446079f32892b7ca347656eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 173/243] fix: cut only the linear VRP components that hold no
 depot

---
 .../discrete_optimization/vrp/solver/lp_vrp_iterative.py       | 3 ++-
 .../discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
index f7885ff..d39e677 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
@@ -997,7 +997,8 @@ def update_model_2(vrp_model: VrpProblem,
         print("Nb component : ", len_component_global)
         for s in components_global:
             # print(s)
-            if True:
+            # the routes of different depots may well be disjoint
+            if not any(n in s[0] for n in vrp_model.start_indexes):
                 edge_in_of_interest = [e for n in s[0] for e in edges_in_customers[n]
                                        if e[0][1] not in s[0] and e[1][1] in s[0]]
                 edge_out_of_interest = [e for n in s[0] for e in edges_out_customers[n]
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
index e8d7298..2ad4d0f 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
@@ -772,7 +772,8 @@ def update_model_2(vrp_model: VrpProblem,
         print("Nb component : ", len_component_global)
         for s in components_global:
             # print(s)
-            if True:
+            # the routes of different depots may well be disjoint
+            if not any(n in s[0] for n in vrp_model.start_indexes):
                 edge_in_of_interest = [e for n in s[0] for e in edges_in_customers[n]
                                        if e[0][1] not in s[0] and e[1][1] in s[0]]
                 edge_out_of_interest = [e for n in s[0] for e in edges_out_customers[n]
-- 
2.43.0


From 00332b29ed5274753f1bb3d1b9f6b89723c7f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 174/243] fix: do not insert VRP components after the end of
 the route

---
 .../discrete_optimization/vrp/solver/lp_vrp_iterative.py     | 5 +++--
 .../vrp/solver/lp_vrp_iterative_pymip.py                     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
index d39e677..78b822e 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
@@ -783,8 +783,9 @@ def rebuild_tsp_routine(sorted_connected_component,
             backup_min_dist = float('inf')
             for e in edge_out_of_interest:
                 index_in = index_path[e[0]][0]
-                # if index_in == total_length_path-1:
-                #     continue
+                if index_in == total_length_path-1 and total_length_path > 1:
+                    # nothing can be inserted after the end
+                    continue
                 index_in_1 = min(index_path[e[0]][0]+1, total_length_path-1)
                 next_node_1 = rebuilded_path[index_in_1]
                 component_e1 = node_to_component[e[1]]
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
index 2ad4d0f..46a71d8 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
@@ -556,8 +556,9 @@ def rebuild_tsp_routine(sorted_connected_component,
             backup_min_dist = float('inf')
             for e in edge_out_of_interest:
                 index_in = index_path[e[0]][0]
-                # if index_in == total_length_path-1:
-                #     continue
+                if index_in == total_length_path-1 and total_length_path > 1:
+                    # nothing can be inserted after the end
+                    continue
                 index_in_1 = min(index_path[e[0]][0]+1, total_length_path-1)
                 next_node_1 = rebuilded_path[index_in_1]
                 component_e1 = node_to_component[e[1]]
-- 
2.43.0


From 782079ddadbef403f3687cd535f4094d831a2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 175/243] fix: keep the linear VRP routes away from the depots
 of other vehicles

---
 .../discrete_optimization/vrp/solver/lp_vrp_iterative.py      | 4 ++++
 .../vrp/solver/lp_vrp_iterative_pymip.py                      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
index 78b822e..f51d551 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py
@@ -345,6 +345,10 @@ def init_model_lp(g,
     #                                                                       for e in edges_out_customers[customer]]) == 1,
     #                                                             name="outs_"+str(customer))
     for v in range(vehicle_count):
+        for depot in set(start_indexes).union(end_indexes).difference([start_indexes[v], end_indexes[v]]):
+            # The depots of the other vehicles are not customers.
+            tsp_model.addConstr(quicksum([x_var[e] for e in edges_in_merged_graph[(v, depot)]]) == 0,
+                        name="other_depot_"+str((v, depot)))
         if start_indexes[v] != end_indexes[v]:
             # A route never comes back to its start and never leaves its end.
             tsp_model.addConstr(quicksum([x_var[e] for e in edges_in_merged_graph[(v, start_indexes[v])]]) == 0,
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
index 46a71d8..f991a7d 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py
@@ -121,6 +121,10 @@ def init_model_lp(g,
     #                                                                       for e in edges_out_customers[customer]]) == 1,
     #                                                             name="outs_"+str(customer))
     for v in range(vehicle_count):
+        for depot in set(start_indexes).union(end_indexes).difference([start_indexes[v], end_indexes[v]]):
+            # The depots of the other vehicles are not customers.
+            tsp_model.add_constr(xsum([x_var[e] for e in edges_in_merged_graph[(v, depot)]]) == 0,
+                         name="other_depot_"+str((v, depot)))
         if start_indexes[v] != end_indexes[v]:
             # A route never comes back to its start and never leaves its end.
             tsp_model.add_constr(xsum([x_var[e] for e in edges_in_merged_graph[(v, start_indexes[v])]]) == 0,
-- 
2.43.0


From bdcf83b411b924a33a03e0ac5e8de3f79d5381f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 176/243] fix: report the modes a multi-skill schedule was
 generated with

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..816637b 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -147,13 +147,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     modes_extended = deepcopy(solution.modes_vector)
     modes_extended.insert(0, 1)
     modes_extended.append(1)
-    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('pre-modes_extended: ', modes_extended)
     # fix modes in case specified mode not in mode details for the activites
     for i in range(len(modes_extended)):
         # print(list(self.problem.mode_details[i + 1].keys()))
         if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
             modes_extended[i] = 1
+    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('modes_extended: ', modes_extended)
     # print('start SGS')
     employee_usage = {}
-- 
2.43.0


From 5323c7b86df338281f75b1efd8b2e6f9dad9779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 177/243] fix: do not book multi-skill workers that bring no
 needed skill

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 816637b..992ef0f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -258,7 +258,8 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                 worker_used = []
                 current_skills = {s: 0. for s in required_skills}
                 for w in priority_list_this_task:
-                    if w in worker_ids:
+                    if w in worker_ids and any(s in current_skills
+                                               for s in problem.employees[w].dict_skill):
                         worker_used += [w]
                         for s in problem.employees[w].dict_skill:
                             if s in current_skills:
-- 
2.43.0


From bde05553bcab81386cfebcab6e840c0fd076cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 178/243] fix: follow the worker priorities when one worker
 does the whole task

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 992ef0f..299b928 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -214,7 +214,9 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                    if problem.one_unit_per_task_max:
                        good = False
                        ws = []
-                       for worker in worker_ids:
+                       for worker in solution.priority_worker_per_task[act_id-2]:
+                           if worker not in worker_ids:
+                               continue
                            if any(s not in problem.employees[worker].dict_skill for s in required_skills) or \
                                    any(problem.employees[worker].dict_skill[s].skill_value<required_skills[s]
                                        for s in required_skills):
-- 
2.43.0


From 169849877bc9d0d8bdafe4a32ee655d7fa852e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 179/243] fix: count the non-renewable needs of multi-skill
 tasks without duration

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 299b928..55cc662 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -255,6 +255,12 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                             problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                             if resource_avail_in_time[res][tt] < 0:
                                 unfeasible_non_renewable_resources = True
+            if problem.mode_details[act_id][mode]['duration'] == 0:
+                for res in problem.non_renewable_resources:
+                    for tt in range(current_min_time, new_horizon):
+                        resource_avail_in_time[res][tt] -= problem.mode_details[act_id][mode][res]
+                        if resource_avail_in_time[res][tt] < 0:
+                            unfeasible_non_renewable_resources = True
             if worker_ids is not None:
                 priority_list_this_task = solution.priority_worker_per_task[act_id-2]
                 worker_used = []
-- 
2.43.0


From 91d4522b5c64a5fae94605de0be7a7c1ed7d810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 180/243] fix: a multi-skill task without duration overlaps
 nothing

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 55cc662..89169ef 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -347,6 +347,8 @@ class Employee:
 
 
 def intersect(i1, i2):
+    if i1[0] >= i1[1] or i2[0] >= i2[1]:
+        return None
     if (i2[0] >= i1[1]
          or i1[0] >= i2[1]):
         return None
-- 
2.43.0


From 6792ec7633f0b5ad122eb0ebd6dee076bf2e68a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 181/243] fix: check the durations of multi-skill schedules

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 89169ef..42a8ed4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -483,6 +483,9 @@ class MS_RCPSPModel(Problem):
             return False
         for task in self.tasks:
             mode = rcpsp_sol.modes[task]
+            if rcpsp_sol.schedule[task]["end_time"] - rcpsp_sol.schedule[task]["start_time"] \
+                    != self.mode_details[task][mode]["duration"]:
+                return False
             required_skills = {s: self.mode_details[task][mode][s]
                                for s in self.mode_details[task][mode]
                                if s in self.skills_set and self.mode_details[task][mode][s] > 0}
-- 
2.43.0


From d6ac5f7bb3e1b23643462364ea2766ed9810a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 182/243] fix: reject multi-skill schedules without the needed
 workers instead of crashing

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 42a8ed4..c649c82 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -493,8 +493,9 @@ class MS_RCPSPModel(Problem):
             if len(required_skills) > 0:
                 for skill in required_skills:
                     employees_used = [self.employees[emp].dict_skill[skill].skill_value
-                                      for emp in rcpsp_sol.employee_usage[task]
-                                      if skill in rcpsp_sol.employee_usage[task][emp]]
+                                      for emp in rcpsp_sol.employee_usage.get(task, {})
+                                      if skill in rcpsp_sol.employee_usage[task][emp]
+                                      and skill in self.employees[emp].dict_skill]
                     if sum(employees_used) < required_skills[skill]:
                         print('1')
                         return False
-- 
2.43.0


From 22adb05319dd8ce3ef74e88404407346a5afa0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 183/243] fix: check the single worker per task of multi-skill
 schedules

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index c649c82..7d87b64 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -501,6 +501,8 @@ class MS_RCPSPModel(Problem):
                         return False
             if task in rcpsp_sol.employee_usage:
                 employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
+                if self.one_unit_per_task_max and len(employee_used) > 1:
+                    return False
                 # print(rcpsp_sol.employee_usage)
                 # employee available at this time
                 if len(employee_used) > 0:
-- 
2.43.0


From c1285ab8fa50f88dd391e17d446c98de93947e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 184/243] fix: reject multi-skill schedules beyond the
 calendars instead of crashing

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 7d87b64..8ca5545 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -507,6 +507,9 @@ class MS_RCPSPModel(Problem):
                 # employee available at this time
                 if len(employee_used) > 0:
                     for e in employee_used:
+                        if rcpsp_sol.schedule[task]["start_time"] < rcpsp_sol.schedule[task]["end_time"] \
+                                and rcpsp_sol.schedule[task]["end_time"] > len(self.employees[e].calendar_employee):
+                            return False
                         if not all(self.employees[e].calendar_employee[t]
                                    for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                   rcpsp_sol.schedule[task]["end_time"])):
@@ -547,6 +550,10 @@ class MS_RCPSPModel(Problem):
                         # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                         resource_usage[res] += self.mode_details[act_id][mode][res]
             for res in self.resources_set:
+                if t >= len(self.resources_availability[res]):
+                    if resource_usage[res] > 0:
+                        return False
+                    continue
                 if resource_usage[res] > self.resources_availability[res][t]:
                     print('Time step resource violation: time: ', t, 'res', res,
                           'res_usage: ', resource_usage[res], 'res_avail: ',
-- 
2.43.0


From abe432f8825132b0c57d3380fa521ef5e4f6e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 185/243] fix: keep the salary of copied employees

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 8ca5545..e93de47 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -343,7 +343,8 @@ class Employee:
     def copy(self):
         return Employee(dict_skill={s: self.dict_skill[s].copy()
                                     for s in self.dict_skill},
-                        calendar_employee=list(self.calendar_employee))
+                        calendar_employee=list(self.calendar_employee),
+                        salary=self.salary)
 
 
 def intersect(i1, i2):
-- 
2.43.0


From 712e42039d86e5c8f9a2cf323168c844b7f18f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 186/243] fix: turn worker permutations into the identifiers of
 the employees

---
 .../rcpsp_multiskill/rcpsp_multiskill.py              | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index e93de47..3d998e1 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -756,7 +756,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             tmp = []
             for j in range(len(self.employees.keys())):
                 tmp.append(permutation[i * len(self.employees.keys()) + j])
-            tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
+            tmp_corrected = [sorted(self.employees)[int(x) - 1] for x in ss.rankdata(tmp)]
             priority_worker_per_task_corrected.append(tmp_corrected)
         return priority_worker_per_task_corrected
 
@@ -784,13 +784,8 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
         elif encoding_name == 'priority_worker_per_task':
             # change the resource permutation priority lists in the solution from int_vector and set the permutation
             # with self.fixed_permutation and the modes with self.fixed_modes
-            priority_worker_per_task_corrected = []
-            for i in range(self.n_jobs_non_dummy):
-                tmp = []
-                for j in range(len(self.employees.keys())):
-                    tmp.append(int_vector[i*len(self.employees.keys())+j])
-                tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
-                priority_worker_per_task_corrected.append(tmp_corrected)
+            priority_worker_per_task_corrected = \
+                self.convert_fixed_priority_worker_per_task_from_permutation(int_vector)
             rcpsp_sol = MS_RCPSPSolution_Variant(problem=self,
                                                  priority_list_task=self.fixed_permutation,
                                                  modes_vector=self.fixed_modes,
-- 
2.43.0


From 671d1c70220f64f28d5a2718128d4375cb63db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 187/243] fix: do not shift the modes fixed from a multi-skill
 solution

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 3d998e1..d6f5d13 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -728,8 +728,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'modes_vector_from0':
-            modes_corrected = [x + 1 for x in sol.modes_vector]
-            self.set_fixed_modes(modes_corrected)
+            self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'priority_worker_per_task':
             self.set_fixed_priority_worker_per_task(sol.priority_worker_per_task)
-- 
2.43.0


From 697c310549a40698418e9dc7658d8160c1df8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 188/243] fix: keep the source, the sink and the single worker
 rule of multi-skill models

---
 .../rcpsp_multiskill/rcpsp_multiskill.py      | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index d6f5d13..8a27e5d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -609,7 +609,7 @@ class MS_RCPSPModel(Problem):
                                  dict_objective_to_doc=dict_objective)
 
     def copy(self):
-        return MS_RCPSPModel(skills_set=self.skills_set,
+        return self.__class__(skills_set=self.skills_set,
                              resources_set=self.resources_set,
                              non_renewable_resources=self.non_renewable_resources,
                              resources_availability=self.resources_availability,
@@ -618,7 +618,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -631,6 +634,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -664,11 +669,21 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
 
+    def copy(self):
+        model = super().copy()
+        model.fixed_modes = self.fixed_modes
+        model.fixed_permutation = self.fixed_permutation
+        model.fixed_priority_worker_per_task = self.fixed_priority_worker_per_task
+        return model
+
     def get_attribute_register(self) -> EncodingRegister:
         dict_register = {}
         max_number_modes = max([len(list(self.mode_details[x].keys())) for x in self.mode_details.keys()])
-- 
2.43.0


From e660f53a4eab60b97b148ec83eb9ec84c13ddc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 189/243] fix: respect the resources when multi-skill tasks are
 shifted left

---
 .../rcpsp_multiskill/solvers/lns_post_process_rcpsp.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
index c5da336..b531d6f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
@@ -53,6 +53,7 @@ def sgs_variant(solution: MS_RCPSPSolution,
     new_horizon = problem.horizon
     for res in problem.resources_set:
         resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
+    renewable_resources = [res for res in problem.resources_set if res not in problem.non_renewable_resources]
     worker_avail_in_time = {}
     for i in problem.employees:
         worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)
@@ -74,7 +75,11 @@ def sgs_variant(solution: MS_RCPSPSolution,
             if all(all(worker_avail_in_time[emp][time]
                        for time in range(t,
                                          t+ solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]))
-                   for emp in employee_used):
+                   for emp in employee_used) \
+                    and all(resource_avail_in_time[res][time] >= problem.mode_details[task][solution.modes[task]][res]
+                            for res in renewable_resources
+                            for time in range(t, t+solution.schedule[task]["end_time"]
+                                              -solution.schedule[task]["start_time"])):
                 new_starting_time = t
                 break
         duration = solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]
@@ -83,6 +88,8 @@ def sgs_variant(solution: MS_RCPSPSolution,
         for t in range(new_starting_time, new_starting_time+duration):
             for emp in employee_used:
                 worker_avail_in_time[emp][t] = False
+            for res in renewable_resources:
+                resource_avail_in_time[res][t] -= problem.mode_details[task][solution.modes[task]][res]
     new_solution = MS_RCPSPSolution(problem=problem,
                                     modes=solution.modes,
                                     schedule=new_proposed_schedule,
-- 
2.43.0


From 23ab0f06a584d7dbacd4f3c0632c3a621ecd8203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 190/243] fix: read the workers of multi-skill result files as
 the identifiers of the model

---
 .../rcpsp_multiskill/rcpsp_multiskill_parser.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
index c833eda..d52bb30 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
@@ -175,7 +175,7 @@ def parse_results(input_data):
                 w = words[j].split("-")
                 ressource_id = w[0]
                 task_id = int(w[1])
-                assignation[task_id] = ressource_id
+                assignation[task_id] = int(ressource_id)
                 schedule[task_id] = hour
         except:
             pass
-- 
2.43.0


From e08a8c08ddf4d3338e669714ca6cbb3214c45f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 191/243] fix: do not pile the end of worker calendars up in
 the representative model

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 8a27e5d..6257350 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -420,10 +420,13 @@ class MS_RCPSPModel(Problem):
             skills_availability = {s: [0]*len(self.resources_availability[self.resources_list[0]])
                                    for s in self.skills_set}
         for emp in self.employees:
-            for j in range(len(self.employees[emp].calendar_employee)):
+            for j in range(min(len(self.employees[emp].calendar_employee),
+                               max([len(x) for x in skills_availability.values()], default=0))):
                 if self.employees[emp].calendar_employee[min(j,
                                                              len(self.employees[emp].calendar_employee)-1)]:
                     for s in self.employees[emp].dict_skill:
+                        if s not in skills_availability:
+                            continue
                         skills_availability[s][min(j,
                                                    len(skills_availability[s])-1)] += self.employees[emp].dict_skill[s].skill_value
         res_availability = deepcopy(self.resources_availability)
-- 
2.43.0


From 0a8278345d2d92949acca6db16fe8d04f2115d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 192/243] fix: non-renewable resources of multi-skill schedules
 outlast the calendars

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 6257350..0bd29da 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -555,7 +555,7 @@ class MS_RCPSPModel(Problem):
                         resource_usage[res] += self.mode_details[act_id][mode][res]
             for res in self.resources_set:
                 if t >= len(self.resources_availability[res]):
-                    if resource_usage[res] > 0:
+                    if resource_usage[res] > 0 and res not in self.non_renewable_resources:
                         return False
                     continue
                 if resource_usage[res] > self.resources_availability[res][t]:
-- 
2.43.0


From b59110bf5e46f8f509abba1a96d46ab22b22597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 193/243] fix: let the multi-skill CP model have no resources

---
 .../rcpsp_multiskill/solvers/cp_solvers.py               | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index 965e5c4..d3a207d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -141,8 +141,15 @@ class CP_MS_MRCPSP_MZN(CPSolver):
             index += 1
         if True:
             if no_ressource:
-                instance["max_time"] = self.rcpsp_model.horizon
+                instance["max_time"] = min([len(self.rcpsp_model.employees[j].calendar_employee)-1
+                                            for j in self.rcpsp_model.employees]
+                                           + [self.rcpsp_model.horizon])
                 keys += ["max_time"]
+                instance["n_res"] = 0
+                for key in ["rreq", "rcap", "rtype", "ressource_capacity_time"]:
+                    instance[key] = []
+                    keys += [key]
+                keys += ["n_res"]
             else:
                 one_ressource = list(self.rcpsp_model.resources_availability.keys())[0]
                 instance["max_time"] = min(len(self.rcpsp_model.resources_availability[one_ressource])-1,
-- 
2.43.0


From 4d5c3cd812fce47f87c3b22357525ff11d51e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 194/243] fix: fix every mode asked for in the multi-skill CP
 model

---
 .../rcpsp_multiskill/solvers/cp_solvers.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index d3a207d..b1f6e46 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -232,7 +232,7 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From 81789c3000866da62defe62579a5e142600b4b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 195/243] fix: nothing is available beyond the calendars in the
 linear multi-skill model

---
 .../rcpsp_multiskill/solvers/lp_model.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
index df3efac..2d2d6e0 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
@@ -376,7 +376,8 @@ class LP_Solver_MRSCPSP(MilpSolver):
                                                   - self.modes[task][mode] <= 0)
                             self.model.add_constr(self.employee_usage[(employee, task, mode, t, s)]
                                                   - self.start_times[task][mode][t] <= 0)
-                            if any(not self.rcpsp_model.employees[employee].calendar_employee[tt]
+                            calendar = self.rcpsp_model.employees[employee].calendar_employee
+                            if any(tt >= len(calendar) or not calendar[tt]
                                    for tt in range(t, t+self.rcpsp_model.mode_details[task][mode]["duration"])):
                                 # print((employee, task, mode, t, s), "will be 0")
                                 # print(self.rcpsp_model.employees[employee].calendar_employee)
@@ -408,7 +409,7 @@ class LP_Solver_MRSCPSP(MilpSolver):
                                            for mode in self.start_times[task]
                                            for time in self.start_times[task][mode]
                                            if time <= t < time+int(self.rcpsp_model.mode_details[task][mode]["duration"]))
-                                  <= renewable[r][t])
+                                  <= (renewable[r][t] if t < len(renewable[r]) else 0))
         # for non renewable ones.
         for r in non_renewable:
             self.model.add_constr(xsum(int(self.rcpsp_model.mode_details[task][mode][r])
-- 
2.43.0


From c2ca3917d45d2e17df3a0e43d1261e1638e7c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 196/243] fix: rollout_episode lets the domain keep its own
 memory

---
 skdecide/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 80aef27..2a97090 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -333,7 +333,6 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From 2bba0668927bead2650c82df8682c6ffe66b23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 197/243] fix: the calendars of hub scheduling domains may end
 at the horizon

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 59ea74a..44f2635 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -9,6 +9,14 @@ from skdecide.builders.scheduling.scheduling_domains import MultiModeRCPSP, \
 from skdecide.builders.domain import DeterministicTransitions
 
 
+def quantity_at_time(calendar: List[int], time: int, renewable: bool) -> int:
+    """Return the quantity given by a calendar. Beyond its end no renewable resource is available, and what is left of a
+    non-renewable one does not change."""
+    if time < len(calendar):
+        return calendar[time]
+    return 0 if renewable else calendar[-1]
+
+
 class D(MultiModeRCPSP):
     pass
 
@@ -77,7 +85,7 @@ class D(MultiModeRCPSPCalendar):
 
 class MRCPSPCalendar(D):
     def _get_quantity_resource(self, resource: str, time: int, **kwargs) -> int:
-        return self.resource_availability[resource][time]
+        return quantity_at_time(self.resource_availability[resource], time, self.resource_renewable[resource])
 
     def __init__(self,
                  resource_names: List[str]=None,
@@ -297,7 +305,7 @@ class SMRCPSPCalendar(D):
         return self.duration_distribution[task][mode]
 
     def _get_quantity_resource(self, resource: str, time: int, **kwargs) -> int:
-        return self.resource_availability[resource][time]
+        return quantity_at_time(self.resource_availability[resource], time, self.resource_renewable[resource])
 
     def __init__(self,
                  resource_names: List[str]=None,
@@ -456,7 +464,7 @@ class MSRCPSPCalendar(D):
         return self.max_horizon
 
     def _get_quantity_resource(self, resource: str, time: int, **kwargs) -> int:
-        return self.resource_availability[resource][time]
+        return quantity_at_time(self.resource_availability[resource], time, self.resource_renewable[resource])
 
     def __init__(self,
                  skills_names: List[str] = None,
-- 
2.43.0


From c1ff315b4a518ab6cbcd282f4f41761cc9d12789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 198/243] fix: keep the renewability of resources when
 durations become uncertain

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 44f2635..06867b1 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -214,6 +214,14 @@ class Stochastic_RCPSP(MultiModeRCPSP_Stochastic_Durations):
     def _get_resource_types_names(self) -> List[str]:
         return self.resource_names
 
+    def _get_resource_renewability(self) -> Dict[str, bool]:
+        if self.resource_renewable is None:
+            return super()._get_resource_renewability()
+        return self.resource_renewable
+
+    def is_renewable(self, resource: str):
+        return self.get_resource_renewability()[resource]
+
     def __init__(self,
                  resource_names: List[str]=None,
                  task_ids: List[int]=None,
-- 
2.43.0


From 0634f8fd65fe32f531b3bd5e9783d376dc955b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 199/243] fix: policies do not wait for predecessors that do
 not exist

---
 skdecide/builders/scheduling/precedence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/precedence.py b/skdecide/builders/scheduling/precedence.py
index 82d54b2..b82eb4a 100644
--- a/skdecide/builders/scheduling/precedence.py
+++ b/skdecide/builders/scheduling/precedence.py
@@ -52,20 +52,23 @@ class WithPrecedence:
         return Graph(nodes, edges, False)
 
     def _task_modes_possible_to_launch(self, state: State):
+        # predecessors which do not exist (yet) under the current conditions are not waited for
+        available = self.get_available_tasks(state)
         return [(n, mode)
                 for n in state.tasks_remaining
                 for mode in self.get_task_modes(n).keys()
                 if all(m in state.tasks_complete
-                       for m in self.ancestors[n])]
+                       for m in self.ancestors[n] if m in available)]
 
     def task_modes_possible_to_launch(self, state: State):
         return self._task_modes_possible_to_launch(state=state)
 
     def _task_possible_to_launch_precedence(self, state: State):
+        available = self.get_available_tasks(state)
         return [n
                 for n in state.tasks_remaining
                 if all(m in state.tasks_complete
-                       for m in self.ancestors[n])]
+                       for m in self.ancestors[n] if m in available)]
 
     def task_possible_to_launch_precedence(self, state: State):
         return self._task_possible_to_launch_precedence(state=state)
-- 
2.43.0


From 2add4fd9fbf1f961ddd760ddc0864ca9fb5716db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 200/243] fix: MetaPolicy gives its known domain back as it was

---
 skdecide/hub/solver/meta_policy/meta_policies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/meta_policy/meta_policies.py b/skdecide/hub/solver/meta_policy/meta_policies.py
index 618a1f7..2c4ee70 100644
--- a/skdecide/hub/solver/meta_policy/meta_policies.py
+++ b/skdecide/hub/solver/meta_policy/meta_policies.py
@@ -28,10 +28,11 @@ class MetaPolicy(DeterministicPolicies):
     def _get_next_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
         results = {}
         actions_map = {}
-        self.known_domain.set_inplace_environment(True)
         actions_c = [self.policies[method].get_next_action(observation)
                      for method in self.policies]
         if len(set(actions_c)) > 1:
+            inplace_environment = self.known_domain.inplace_environment
+            self.known_domain.set_inplace_environment(True)
             for method in self.policies:
                 results[method] = 0.
                 for j in range(self.nb_rollout_estimation):
@@ -44,6 +45,7 @@ class MetaPolicy(DeterministicPolicies):
                     # cost = sum(v.cost for v in values)
                     results[method] += states[-1].t-observation.t # TODO, this is a trick...
                     actions_map[method] = actions[0]
+            self.known_domain.set_inplace_environment(inplace_environment)
             if self.verbose:
                 # print(results)
                 print(actions_map[min(results, key=lambda x: results[x])])
-- 
2.43.0


From 0296bcadd81ed2695d1dbcc1ea2a7e9efc6f4fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 201/243] fix: GPHH.test_features gives the features the
 critical path they need

---
 skdecide/hub/solver/gphh/gphh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index 4322987..54ec8ab 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -690,9 +690,12 @@ class GPHH(Solver, DeterministicPolicies):
         return fitness
 
     def test_features(self, domain, task_id, observation):
+        cpm, cpm_esd = compute_cpm(build_do_domain(domain))
         for f in FeatureEnum:
             print('feature: ', f)
             calculated_feature = feature_function_map[f](domain=domain,
+                                                   cpm=cpm,
+                                                   cpm_esd=cpm_esd,
                                                    task_id=task_id,
                                                    state=observation)
             print('\tcalculated_feature: ',calculated_feature)
-- 
2.43.0


From 10dddf90b47683c1fa4c39e910c59c650fcf0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 202/243] fix: RANDOM aggregation of pooled priority rules
 draws an index

---
 skdecide/hub/solver/gphh/gphh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index 54ec8ab..f29199d 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -902,7 +902,7 @@ class PooledGPHHPolicy(DeterministicPolicies):
             elif self.pool_aggregation_method == PoolAggregationMethod.MEDIAN:
                 agg_value = np.median(output_values)
             elif self.pool_aggregation_method == PoolAggregationMethod.RANDOM:
-                index = random.randint(len(output_values))
+                index = random.randrange(len(output_values))
                 agg_value = output_values[index]
 
             # print('agg_value: ', agg_value)
-- 
2.43.0


From 34dc45a040e86805425eef0e5923cc962542802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 203/243] fix: policy evaluation skips outcomes that never
 happen

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..14d359a 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -31,7 +31,7 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-            assert (state in preds[succ])
+            assert prob == 0 or state in preds[succ]
     return policy_dict, preds, succs
 
 
@@ -55,6 +55,8 @@ def expected_costs_for_policy(domain,
         a = policy_dict[s]
         main_cost = 0
         for succ, prob in succs[s]:
+            if prob == 0:
+                continue
             # evaluate objective function on transition
             val = domain.get_transition_value(s, a, succ)
             main_cost += prob * (val.cost + opt_val[succ])
-- 
2.43.0


From 0d5ae69ce183256b611866d96e189dfdc2f3143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 204/243] fix: fast policy evaluation gives its domain back as
 it was

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 14d359a..e7fdb8d 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -149,6 +149,7 @@ def rollout_based_policy_estimation_fast_scheduling(domain: SchedulingDomain,
     s = domain.get_initial_state()
     summed_value[s] = 0
     nb_visit_dict[s] = 0
+    inplace_environment = domain.inplace_environment
     domain.set_inplace_environment(True)
     for rollout in range(nb_rollout):
         states, summed_value_rollout, values, actions = my_custom_rollout(domain,
@@ -156,6 +157,7 @@ def rollout_based_policy_estimation_fast_scheduling(domain: SchedulingDomain,
                                                                           policy)
         summed_value[s] += states[-1].t-s.t
         nb_visit_dict[s] += 1
+    domain.set_inplace_environment(inplace_environment)
     final_value = {st: summed_value[st]/nb_visit_dict[st] for st in summed_value}
     return final_value, policy_dict, preds, succs
 
-- 
2.43.0


From 89d29b26070b1a6f8689eb54da35d64ea955c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 205/243] fix: durations of resumed tasks depend on the
 progress they start from

---
 skdecide/builders/scheduling/task_duration.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/scheduling/task_duration.py b/skdecide/builders/scheduling/task_duration.py
index b42e9d2..531eb1b 100644
--- a/skdecide/builders/scheduling/task_duration.py
+++ b/skdecide/builders/scheduling/task_duration.py
@@ -44,7 +44,7 @@ class UncertainMultivariateTaskDuration(SimulatedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying multiivariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                        multivariate_settings: Optional[Dict[str, int]] = None) -> Distribution:
@@ -65,7 +65,7 @@ class UncertainUnivariateTaskDuration(UncertainMultivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1,
                                         progress_from: Optional[float]=0.,
@@ -81,7 +81,7 @@ class UncertainBoundedTaskDuration(UncertainUnivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -113,14 +113,14 @@ class UniformBoundedTaskDuration(UncertainBoundedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate uniform bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
         """Return the Distribution of the duration of the given task in the given mode.
         The distribution is uniform between the defined lower and upper bounds."""
-        lb = self.get_task_duration_lower_bound(task, mode)
-        ub = self.get_task_duration_upper_bound(task, mode)
+        lb = self.get_task_duration_lower_bound(task, mode, progress_from)
+        ub = self.get_task_duration_upper_bound(task, mode, progress_from)
         n_vals = ub - lb + 1
         p = 1.0 / float(n_vals)
         values = [(x, p) for x in range(lb, ub+1)]
@@ -140,7 +140,7 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -150,12 +150,12 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return max(duration_vals)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return min(duration_vals)
 
 
@@ -178,12 +178,12 @@ class DeterministicTaskDuration(EnumerableTaskDuration):
                                         multivariate_settings: Optional[Dict[str, int]] = None):
         """Return the Distribution of the duration of the given task in the given mode.
         Because the duration is deterministic, the distribution always returns the same duration."""
-        return DiscreteDistribution([(self.get_task_duration(task, mode), 1)])
+        return DiscreteDistribution([(self.get_task_duration(task, mode, progress_from), 1)])
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
-- 
2.43.0


From 49689ed156afaaa4f510572163b1c378de837596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 206/243] fix: MinimumOnlyTimeLag can be created

---
 skdecide/builders/scheduling/time_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/time_lag.py b/skdecide/builders/scheduling/time_lag.py
index 83e71d8..e9aa0e8 100644
--- a/skdecide/builders/scheduling/time_lag.py
+++ b/skdecide/builders/scheduling/time_lag.py
@@ -17,7 +17,7 @@ class MinimumOnlyTimeLag(TimeLag):
 
     def __init__(self, minimum_time_lag):
         self.minimum_time_lag = minimum_time_lag
-        self.maximum_time_lags = self.get_max_horizon()
+        self.maximum_time_lags = float('inf')
 
 
 class MaximumOnlyTimeLag(TimeLag):
-- 
2.43.0


From 2517da1747cf5e3718b1cdaec832b4a286b71e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 207/243] fix: the active time of an ended task needs no date

---
 skdecide/builders/scheduling/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index aa36989..5582d32 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -35,7 +35,7 @@ class Task:
     def get_task_active_time(self, t: Optional[int] = None):
         tt = t
         if self.end is not None:
-            tt = min(t, self.end)
+            tt = self.end if t is None else min(t, self.end)
         if self.start is None:
             return 0
         time_since_start = tt - self.start
-- 
2.43.0


From b0d4a8ea225cdef4d553511d1a0b4bfd9e4b7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 208/243] fix: tasks of 10000 time steps or more do not end
 early

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index b180ef2..053ada4 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -337,7 +337,7 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         completed_tmp = []
         for task_id in next_state.tasks_ongoing:
-            if next_state.tasks_progress[task_id] >= 0.9999:
+            if next_state.tasks_progress[task_id] >= 1 - 1e-7:  # accumulated in floating point
                 next_state.tasks_progress[task_id] = 1
                 completed_tmp.append(task_id)
         for completed_task in completed_tmp:
@@ -363,7 +363,7 @@ class SchedulingDomain(WithPrecedence,
         for next_state, state_proba in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
-                if next_state.tasks_progress[task_id] >= 0.9999:
+                if next_state.tasks_progress[task_id] >= 1 - 1e-7:  # accumulated in floating point
                     next_state.tasks_progress[task_id] = 1
                     completed_tmp.append(task_id)
 
-- 
2.43.0


From 13549f93785351aa41667307fd4b4db4042f0fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 209/243] fix: CGP programs run with current NumPy (np.int is
 gone)

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 9ba477c..5b83c89 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -37,7 +37,7 @@ class CGP:
 		self.to_evaluate = np.zeros(self.max_graph_length, dtype=bool)
 		self.node_output = np.zeros(self.max_graph_length + self.num_inputs, dtype=np.float64)
 		self.nodes_used = []
-		self.output_genes = np.zeros(self.num_outputs, dtype=np.int)
+		self.output_genes = np.zeros(self.num_outputs, dtype=int)
 		self.nodes = np.empty(0, dtype=self.CGPNode)
 		for i in range(0, self.num_outputs):
 			self.output_genes[i] = self.genome[len(self.genome)-self.num_outputs+i]
-- 
2.43.0


From 38d229c6412857fa837cf3ff8ce4b3e6deba0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 210/243] fix: CGP mutations draw arguments among the inputs
 and the earlier columns

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 5b83c89..2787fba 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -119,7 +119,7 @@ class CGP:
 					self.genome[index] = rnd.randint(0, len(self.library) - 1)
 				else:
 					# mutate connection
-					self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows)
+					self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) // self.num_rows) * self.num_rows - 1)
 			else:
 				# this is an output node
 				self.genome[index] = rnd.randint(0, self.num_inputs + self.num_cols * self.num_rows - 1)
@@ -134,7 +134,7 @@ class CGP:
 						self.genome[index] = rnd.randint(0, len(self.library) - 1)
 					else:
 						# mutate connection
-						self.genome[index] = rnd.randint(0, min(self.max_graph_length + self.num_inputs - 1, (self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows) * self.recurrency_distance))
+						self.genome[index] = rnd.randint(0, min(self.max_graph_length + self.num_inputs - 1, int((self.num_inputs + (int(index / (self.max_arity + 1)) // self.num_rows) * self.num_rows - 1) * self.recurrency_distance)))
 						#self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows)
 			else:
 				# this is an output node
-- 
2.43.0


From caf63e24cdc7515f792df61e30086bd739c96e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 211/243] fix: a CGP program mutated after it ran runs its new
 genome

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 2787fba..71fc48c 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -110,6 +110,7 @@ class CGP:
 		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library)
 
 	def mutate(self, num_mutationss):
+		self.graph_created = False
 		for i in range(0, num_mutationss):
 			index = rnd.randint(0, len(self.genome) - 1)
 			if index < self.num_cols * self.num_rows * (self.max_arity + 1):
@@ -125,6 +126,7 @@ class CGP:
 				self.genome[index] = rnd.randint(0, self.num_inputs + self.num_cols * self.num_rows - 1)
 	
 	def mutate_per_gene(self, mutation_rate_nodes, mutation_rate_outputs):
+		self.graph_created = False
 		for index in range(0, len(self.genome)):
 			if index < self.num_cols * self.num_rows * (self.max_arity + 1):
 				# this is an internal node
-- 
2.43.0


From dc860fe2e1039f8a1225dbe73514eb318a69a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 212/243] fix: CGP clones keep the recurrency distance

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 71fc48c..880293c 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -107,7 +107,7 @@ class CGP:
 		return output
 
 	def clone(self):
-		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library)
+		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library, self.recurrency_distance)
 
 	def mutate(self, num_mutationss):
 		self.graph_created = False
-- 
2.43.0


From b5afc0df2750398863a19a2d24aec8d2558471a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 213/243] fix: CGP offspring can be evaluated in parallel (the
 log file was pickled)

---
 skdecide/hub/solver/cgp/pycgp/cgpes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgpes.py b/skdecide/hub/solver/cgp/pycgp/cgpes.py
index 66b05c6..c8d1717 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgpes.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgpes.py
@@ -44,9 +44,7 @@ class CGPES:
 					self.offsprings[i] = self.father.clone()
 					#self.offsprings[i].mutate(self.num_mutations)
 					self.offsprings[i].mutate_per_gene(self.mutation_rate_nodes, self.mutation_rate_outputs)
-				def offspring_eval_task(offspring_id):
-					return self.evaluator_pool[offspring_id].evaluate(self.offsprings[offspring_id], self.it)
-				self.offspring_fitnesses = Parallel(n_jobs = self.num_cpus)(delayed(offspring_eval_task)(i) for i in range(self.num_offsprings)) 
+				self.offspring_fitnesses = Parallel(n_jobs = self.num_cpus)(delayed(self.evaluator_pool[i].evaluate)(self.offsprings[i], self.it) for i in range(self.num_offsprings)) 
 			#get the best fitness
 			best_offspring = np.argmax(self.offspring_fitnesses)
 			#compare to father
-- 
2.43.0


From 0cdfb97076757204c7ef1969cd861367bc1d2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 214/243] fix: spaces of a single value are normalised without
 dividing by zero

---
 skdecide/hub/solver/cgp/cgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index ed5a984..7b81f2c 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -34,6 +34,8 @@ def change_interval(x, inmin, inmax, outmin, outmax):
         inmax = 1
     # making sure x is in the interval
     x = max(inmin, min(inmax, x))
+    if inmin == inmax:
+        return outmin
     # normalizing x between 0 and 1
     x = (x - inmin) / (inmax - inmin)
     # denormalizing between outmin and outmax
-- 
2.43.0


From 2a15b70d4a4d0cdb3550119e5abc96f18e86b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 215/243] fix: CGP checks every part of the spaces, not just
 the last

---
 skdecide/hub/solver/cgp/cgp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index 7b81f2c..406bb94 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -206,11 +206,11 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
 
         valide_action_space = True
         for x in flat_action_space:
-            valide_action_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            valide_action_space = valide_action_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         validate_observation_space = True
         for x in flat_observation_space:
-            validate_observation_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            validate_observation_space = validate_observation_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         return valide_action_space and validate_observation_space
         
-- 
2.43.0


From db1b0fed742c2dcc03cc4a24b5cd8143b69d7a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 216/243] fix: CGP weights the episodes by rank (the sorted
 array was thrown away)

---
 skdecide/hub/solver/cgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index 406bb94..16db777 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -325,7 +325,7 @@ class SkDecideEvaluator(Evaluator):
                 fit += reward
                 step += 1
             fitnesses[e] = fit
-        np.sort(fitnesses)
+        fitnesses = np.sort(fitnesses)
         fit = 0
         sum_e = 0
         for e in range(self.ep_max):
-- 
2.43.0


From 1cd321f9c8e67aac8ec67578ba042b6d211d4345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 217/243] fix: CGP programs read and write every component of
 nested spaces

---
 skdecide/hub/solver/cgp/cgp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index 16db777..5c84734 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -222,11 +222,11 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
             a = domain.get_action_space().sample()
             b = domain.get_observation_space().sample()
             if isinstance(a, Iterable) or isinstance(a, gym.spaces.Tuple):
-                num_outputs = len(a)
+                num_outputs = len(list(flatten(a)))
             else:
                 num_outputs = 1
             if isinstance(b, Iterable) or isinstance(b, gym.spaces.Tuple):
-                num_inputs = len(b)
+                num_inputs = len(list(flatten(b)))
             else:
                 num_inputs = 1
             cgpFather = CGP.random(num_inputs,
-- 
2.43.0


From a86f3eb4a653f3d8aa2ac20ffeb59eceaae9d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 218/243] fix: MaxEnt IRL knows the states at the upper bounds

---
 skdecide/hub/solver/maxent_irl/maxent_irl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/hub/solver/maxent_irl/maxent_irl.py b/skdecide/hub/solver/maxent_irl/maxent_irl.py
index a29f307..b21b192 100755
--- a/skdecide/hub/solver/maxent_irl/maxent_irl.py
+++ b/skdecide/hub/solver/maxent_irl/maxent_irl.py
@@ -64,8 +64,8 @@ class MaxentIRL(Solver, Policies, Restorable):
         env_low = observation_space.low
         env_high = observation_space.high
         env_distance = (env_high - env_low) / self.one_feature
-        position_idx = int((state[0] - env_low[0]) / env_distance[0])
-        velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
+        position_idx = min(int((state[0] - env_low[0]) / env_distance[0]), self.one_feature - 1)
+        velocity_idx = min(int((state[1] - env_low[1]) / env_distance[1]), self.one_feature - 1)
         state_index = position_idx + velocity_idx * self.one_feature
         return state_index
 
@@ -74,8 +74,8 @@ class MaxentIRL(Solver, Policies, Restorable):
         env_low = observation_space.low
         env_high = observation_space.high
         env_distance = (env_high - env_low) / self.one_feature
-        position_idx = int((state[0] - env_low[0]) / env_distance[0])
-        velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
+        position_idx = min(int((state[0] - env_low[0]) / env_distance[0]), self.one_feature - 1)
+        velocity_idx = min(int((state[1] - env_low[1]) / env_distance[1]), self.one_feature - 1)
         state_idx = position_idx + velocity_idx * self.one_feature
         return state_idx
 
@@ -152,8 +152,8 @@ class MaxentIRL(Solver, Policies, Restorable):
         env_distance = (env_high - env_low) / self.one_feature
         for x in range(len(raw_demo)):
             for y in range(len(raw_demo[0])):
-                position_idx = int((raw_demo[x][y][0] - env_low[0]) / env_distance[0])
-                velocity_idx = int((raw_demo[x][y][1] - env_low[1]) / env_distance[1])
+                position_idx = min(int((raw_demo[x][y][0] - env_low[0]) / env_distance[0]), self.one_feature - 1)
+                velocity_idx = min(int((raw_demo[x][y][1] - env_low[1]) / env_distance[1]), self.one_feature - 1)
                 state_index = position_idx + velocity_idx * self.one_feature
 
                 demonstrations[x][y][0] = state_index
-- 
2.43.0


From e780d332e639efd3bd31ad7c4a8ec36e71d17793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 219/243] fix: MaxEnt IRL saves its table beside the
 trajectories, and keeps what it learnt since the last save

---
 skdecide/hub/solver/maxent_irl/maxent_irl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/maxent_irl/maxent_irl.py b/skdecide/hub/solver/maxent_irl/maxent_irl.py
index b21b192..65f9bc4 100755
--- a/skdecide/hub/solver/maxent_irl/maxent_irl.py
+++ b/skdecide/hub/solver/maxent_irl/maxent_irl.py
@@ -205,9 +205,9 @@ class MaxentIRL(Solver, Policies, Restorable):
                 print('{} episode score is {:.2f}'.format(episode, score_avg))
                 pylab.plot(episodes, scores, 'b')
                 pylab.savefig("./maxent.png")
-                np.save("./" + self.expert_trajectories[:-4] + "_maxent_q_table", arr=self.q_table)
+                np.save(self.expert_trajectories[:-4] + "_maxent_q_table", arr=self.q_table)
 
-        self.q_table = np.load(file= self.expert_trajectories[:-4] + "_maxent_q_table.npy")
+        np.save(self.expert_trajectories[:-4] + "_maxent_q_table", arr=self.q_table)
 
     def _sample_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
 
-- 
2.43.0


From 8963fd8e92b9931006966e6173622ef3860cd6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 220/243] fix: MaxEnt IRL says that its policy is defined

---
 skdecide/hub/solver/maxent_irl/maxent_irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/maxent_irl/maxent_irl.py b/skdecide/hub/solver/maxent_irl/maxent_irl.py
index 65f9bc4..1cb13fc 100755
--- a/skdecide/hub/solver/maxent_irl/maxent_irl.py
+++ b/skdecide/hub/solver/maxent_irl/maxent_irl.py
@@ -220,7 +220,7 @@ class MaxentIRL(Solver, Policies, Restorable):
         self.score = 0
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        pass
+        return self.q_table is not None
 
     def _save(self, path: str) -> None:
         pass
-- 
2.43.0


From ab665019f24d3d4baccf63b5e26d42bc4f5900df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 221/243] fix: CGP drawings start from no visited node (an
 uninitialised number could hide one)

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 880293c..f752235 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -150,7 +150,7 @@ class CGP:
 		out = open(file_name, 'w')
 		out.write('digraph cgp {\n')
 		out.write('\tsize = "4,4";\n')
-		self.dot_rec_visited_nodes = np.empty(1)
+		self.dot_rec_visited_nodes = np.empty(0)
 		for i in range(self.num_outputs):
 			out.write('\t' + output_names[i] + ' [shape=oval];\n')
 			self._write_dot_from_gene(output_names[i], self.output_genes[i], out, 0, input_names, output_names)
-- 
2.43.0


From 24711b96b48e789325c56b2e9ea99c940aaf3da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 222/243] fix: a parallel solver used without a with statement
 can create its domain

---
 skdecide/builders/solver/parallelability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 4e3134c..2a530ce 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -66,7 +66,7 @@ class ParallelSolver:
         Returns the domain, optionnally creating a parallel domain if not already created.
         """
         if self._domain is None:
-            self._create_domain()
+            self._initialize()
         return self._domain
     
     def call_domain_method(self, name, *args):
-- 
2.43.0


From c7b923b89f65f409e12c32f475c418ac7419f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 223/243] fix: a search solver without domain factory can be
 entered before solving

---
 skdecide/builders/solver/parallelability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 2a530ce..fd4d98d 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -37,6 +37,8 @@ class ParallelSolver:
         and whether the parallel domain jobs should notify their status via the IPC protocol (required when interacting with
         other programming languages like C++)
         """
+        if self._domain_factory is None:
+            return  # the domain will be created once its factory is known, i.e. when solving
         if self._parallel:
             if self._shared_memory_proxy is None:
                 self._domain = PipeParallelDomain(self._domain_factory, lambdas=self._lambdas, ipc_notify=self._ipc_notify)
-- 
2.43.0


From caf3257362b74095f164eb62d886498fc446cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 224/243] fix: the C++ search solvers tell whether their policy
 is defined

---
 skdecide/hub/solver/aostar/aostar.py     | 5 +++++
 skdecide/hub/solver/astar/astar.py       | 5 +++++
 skdecide/hub/solver/bfws/bfws.py         | 5 +++++
 skdecide/hub/solver/ilaostar/ilaostar.py | 5 +++++
 skdecide/hub/solver/iw/iw.py             | 5 +++++
 skdecide/hub/solver/lrtdp/lrtdp.py       | 5 +++++
 skdecide/hub/solver/mcts/mcts.py         | 5 +++++
 skdecide/hub/solver/riw/riw.py           | 5 +++++
 8 files changed, 40 insertions(+)

diff --git a/skdecide/hub/solver/aostar/aostar.py b/skdecide/hub/solver/aostar/aostar.py
index fbf2996..f6a4f09 100644
--- a/skdecide/hub/solver/aostar/aostar.py
+++ b/skdecide/hub/solver/aostar/aostar.py
@@ -106,6 +106,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/astar/astar.py b/skdecide/hub/solver/astar/astar.py
index 4c4e731..6fd26eb 100644
--- a/skdecide/hub/solver/astar/astar.py
+++ b/skdecide/hub/solver/astar/astar.py
@@ -97,6 +97,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/bfws/bfws.py b/skdecide/hub/solver/bfws/bfws.py
index b5a0b57..ed9b8c4 100644
--- a/skdecide/hub/solver/bfws/bfws.py
+++ b/skdecide/hub/solver/bfws/bfws.py
@@ -110,6 +110,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/ilaostar/ilaostar.py b/skdecide/hub/solver/ilaostar/ilaostar.py
index cfb779a..e08c6a2 100644
--- a/skdecide/hub/solver/ilaostar/ilaostar.py
+++ b/skdecide/hub/solver/ilaostar/ilaostar.py
@@ -103,6 +103,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/iw/iw.py b/skdecide/hub/solver/iw/iw.py
index 72dfcca..a47227b 100644
--- a/skdecide/hub/solver/iw/iw.py
+++ b/skdecide/hub/solver/iw/iw.py
@@ -103,6 +103,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/lrtdp/lrtdp.py b/skdecide/hub/solver/lrtdp/lrtdp.py
index 07857d7..3c0d310 100644
--- a/skdecide/hub/solver/lrtdp/lrtdp.py
+++ b/skdecide/hub/solver/lrtdp/lrtdp.py
@@ -121,6 +121,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/mcts/mcts.py b/skdecide/hub/solver/mcts/mcts.py
index e66f926..c321d64 100644
--- a/skdecide/hub/solver/mcts/mcts.py
+++ b/skdecide/hub/solver/mcts/mcts.py
@@ -154,6 +154,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/riw/riw.py b/skdecide/hub/solver/riw/riw.py
index ec8d460..da78ebe 100644
--- a/skdecide/hub/solver/riw/riw.py
+++ b/skdecide/hub/solver/riw/riw.py
@@ -119,6 +119,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
-- 
2.43.0


From aaef50dd239b08a52b31b583f4cb3624ac763b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 225/243] fix: A* lets two parallel actions update the same
 neighbour at once

---
 cpp/src/hub/solver/astar.hh | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cpp/src/hub/solver/astar.hh b/cpp/src/hub/solver/astar.hh
index 8802c27..56d4a99 100644
--- a/cpp/src/hub/solver/astar.hh
+++ b/cpp/src/hub/solver/astar.hh
@@ -136,19 +136,26 @@ public :
                     double transition_cost = _domain.get_transition_cost(best_tip_node->state, a, neighbor.state);
                     double tentative_gscore = best_tip_node->gscore + transition_cost;
 
-                    if ((i.second) || (tentative_gscore < neighbor.gscore)) {
-                        neighbor.gscore = tentative_gscore;
+                    bool improved = false;
+                    _execution_policy.protect([&neighbor, &tentative_gscore, &improved]{ // several actions can lead to the same state
+                        improved = tentative_gscore < neighbor.gscore;
+                    });
+
+                    if ((i.second) || improved) {
                         // the fscore of a solved node is its cost-to-go (computed by a previous search)
                         double estimate = tentative_gscore + (neighbor.solved ? neighbor.fscore : _heuristic(_domain, neighbor.state));
-                        if (!(neighbor.solved)) { neighbor.fscore = estimate; }
-                        neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                        _execution_policy.protect([&open_queue, &neighbor, &estimate]{
-                            open_queue.push(std::make_pair(estimate, &neighbor));
+                        _execution_policy.protect([this, &best_tip_node, &a, &transition_cost, &tentative_gscore, &open_queue, &neighbor, &estimate]{
+                            if (tentative_gscore < neighbor.gscore) { // might have been improved by another thread in the meantime
+                                neighbor.gscore = tentative_gscore;
+                                if (!(neighbor.solved)) { neighbor.fscore = estimate; }
+                                neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
+                                open_queue.push(std::make_pair(estimate, &neighbor));
+                                if (_debug_logs) spdlog::debug("Update neighbor node: " + neighbor.state.print() +
+                                                               ", gscore=" + StringConverter::from(neighbor.gscore) +
+                                                               ", fscore=" + StringConverter::from(neighbor.fscore) +
+                                                               ExecutionPolicy::print_thread());
+                            }
                         });
-                        if (_debug_logs) spdlog::debug("Update neighbor node: " + neighbor.state.print() +
-                                                       ", gscore=" + StringConverter::from(neighbor.gscore) +
-                                                       ", fscore=" + StringConverter::from(neighbor.fscore) +
-                                                       ExecutionPolicy::print_thread());
                     }
                 });
             }
-- 
2.43.0


From 73b3ed15ca5b2074eb503e7ed16071bc304c7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 226/243] fix: AO* expands into the action node of another
 thread and reads the values being updated by other threads in parallel mode

---
 cpp/src/hub/solver/aostar.hh | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index affe8b5..f17ee43 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -30,6 +30,9 @@ public :
     typedef typename Domain::Event Action;
     typedef Texecution_policy ExecutionPolicy;
 
+    typedef typename ExecutionPolicy::template atomic<double> atomic_double;
+    typedef typename ExecutionPolicy::template atomic<bool> atomic_bool;
+
     AOStarSolver(Domain& domain,
                  const std::function<bool (Domain&, const State&)>& goal_checker,
                  const std::function<double (Domain&, const State&)>& heuristic,
@@ -89,10 +92,12 @@ public :
                     auto applicable_actions = _domain.get_applicable_actions(best_tip_node->state).get_elements();
                     std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &best_tip_node](auto a){
                         if (_debug_logs) spdlog::debug("Current expanded action: " + a.print() + ExecutionPolicy::print_thread());
-                        _execution_policy.protect([&best_tip_node, &a]{
+                        ActionNode* new_action = nullptr;
+                        _execution_policy.protect([&best_tip_node, &a, &new_action]{
                             best_tip_node->actions.push_back(std::make_unique<ActionNode>(a));
+                            new_action = best_tip_node->actions.back().get();
                         });
-                        ActionNode& an = *(best_tip_node->actions.back());
+                        ActionNode& an = *new_action;
                         an.parent = best_tip_node;
                         auto next_states = _domain.get_next_state_distribution(best_tip_node->state, a).get_values();
                         for (auto ns : next_states) {
@@ -128,26 +133,28 @@ public :
                     std::unordered_set<StateNode*> new_frontier;
                     std::for_each(ExecutionPolicy::policy, frontier.begin(), frontier.end(), [this, &new_frontier](const auto& fs){
                         // update Q-values and V-value
-                        fs->best_value = std::numeric_limits<double>::infinity();
+                        // (the states of the frontier that are predecessors of this one are concurrently updated from its value)
+                        double best_value = std::numeric_limits<double>::infinity();
                         fs->best_action = nullptr;
                         for (const auto& a : fs->actions) {
                             a->value = 0.0;
                             for (const auto& ns : a->outcomes) {
                                 a->value += std::get<0>(ns) * (std::get<1>(ns) + (_discount * std::get<2>(ns)->best_value));
                             }
-                            if (a->value < fs->best_value) {
-                                fs->best_value = a->value;
+                            if (a->value < best_value) {
+                                best_value = a->value;
                                 fs->best_action = a.get();
                             }
-                            fs->best_value = std::min(fs->best_value, a->value);
                         }
+                        fs->best_value = best_value;
                         // update solved field
-                        fs->solved = true;
+                        bool solved = true;
                         if (fs->best_action != nullptr) { // otherwise dead end: nothing left to expand
                             for (const auto& ns : fs->best_action->outcomes) {
-                                fs->solved = fs->solved && std::get<2>(ns)->solved;
+                                solved = solved && std::get<2>(ns)->solved;
                             }
                         }
+                        fs->solved = solved;
                         // update new frontier
                         _execution_policy.protect([&fs, &new_frontier]{
                             for (const auto& ps : fs->parents) {
@@ -212,7 +219,7 @@ public :
         return si->best_action->action;
     }
 
-    const double& get_best_value(const State& s) const {
+    double get_best_value(const State& s) const {
         auto si = _graph.find(s);
         if (si == _graph.end()) {
             throw std::runtime_error("SKDECIDE exception: no best action found in state " + s.print());
@@ -236,8 +243,8 @@ private :
         State state;
         std::list<std::unique_ptr<ActionNode>> actions;
         ActionNode* best_action;
-        double best_value;
-        bool solved;
+        atomic_double best_value;
+        atomic_bool solved;
         std::list<ActionNode*> parents;
 
         StateNode(const State& s)
-- 
2.43.0


From dea7a008ea2dd3ff7afdcef8a492cc646303edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 227/243] fix: ILAO* expands into the action node of another
 thread and loses residuals and changes in parallel mode

---
 cpp/src/hub/solver/ilaostar.hh | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 619b69c..dc91c4e 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -220,10 +220,12 @@ private :
         
         std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &s](auto a){
             if (_debug_logs) spdlog::debug("Current expanded action: " + a.print() + ExecutionPolicy::print_thread());
-            _execution_policy.protect([&s, &a]{
+            ActionNode* new_action = nullptr;
+            _execution_policy.protect([&s, &a, &new_action]{
                 s.actions.push_back(std::make_unique<ActionNode>(a));
+                new_action = s.actions.back().get();
             });
-            ActionNode& an = *(s.actions.back());
+            ActionNode& an = *new_action;
             auto next_states = _domain.get_next_state_distribution(s.state, a).get_values();
 
             for (auto ns : next_states) {
@@ -357,7 +359,10 @@ private :
         while (residual > _epsilon) {
             residual = 0;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &residual](auto& s){
-                residual = std::max((double) residual, update(*s));
+                double r = update(*s);
+                _execution_policy.protect([&residual, &r]{
+                    residual = std::max((double) residual, r);
+                });
             });
         }
 
@@ -389,7 +394,9 @@ private :
         while (changes) {
             changes = false;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &changes](auto& s){
-                changes = update_reachability(*s) || changes;
+                if (update_reachability(*s)) {
+                    changes = true;
+                }
             });
         }
 
@@ -454,7 +461,10 @@ private :
         while (residual > _epsilon) {
             residual = 0;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &residual](auto& s){
-                residual = std::max((double) residual, update_mfpt(*s));
+                double r = update_mfpt(*s);
+                _execution_policy.protect([&residual, &r]{
+                    residual = std::max((double) residual, r);
+                });
             });
         }
         if (_debug_logs) spdlog::debug("Mean first passage time computation converged with residual " +
-- 
2.43.0


From 0f8710d36efea064fac3174df413020e36026167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 228/243] fix: IW lets two parallel actions update the same
 neighbour at once

---
 cpp/src/hub/solver/iw.hh | 46 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/cpp/src/hub/solver/iw.hh b/cpp/src/hub/solver/iw.hh
index 73cf698..ecb0e09 100644
--- a/cpp/src/hub/solver/iw.hh
+++ b/cpp/src/hub/solver/iw.hh
@@ -402,39 +402,39 @@ private :
                         std::pair<typename Graph::iterator, bool> i;
                         _execution_policy.protect([this, &i, &next_state]{
                             i = _graph.emplace(Node(next_state, _domain, _state_features));
+                            if (_debug_logs) spdlog::debug("Exploring next state (among " +
+                                                           StringConverter::from(_graph.size()) + ")" +
+                                                           ExecutionPolicy::print_thread());
                         });
                         Node& neighbor = const_cast<Node&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
-                        if (_debug_logs) spdlog::debug("Exploring next state (among " +
-                                                       StringConverter::from(_graph.size()) + ")" +
-                                                       ExecutionPolicy::print_thread());
 
                         double transition_cost = _domain.get_transition_cost(best_tip_node->state, a, neighbor.state);
                         double tentative_gscore = best_tip_node->gscore + transition_cost;
                         std::size_t tentative_depth = best_tip_node->depth + 1;
                         bool improved = false;
 
-                        if ((i.second) || (tentative_gscore < neighbor.gscore)) {
-                            if (_debug_logs) spdlog::debug("New gscore: " +
-                                                           StringConverter::from(best_tip_node->gscore) + "+" +
-                                                           StringConverter::from(transition_cost) + "=" +
-                                                           StringConverter::from(tentative_gscore) +
-                                                           ExecutionPolicy::print_thread());
-                            improved = true;
-                            neighbor.gscore = tentative_gscore;
-                            neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                        }
+                        _execution_policy.protect([this, &best_tip_node, &a, &transition_cost, &tentative_gscore, &tentative_depth, &feature_tuples, &open_queue, &closed_set, &generated_set, &neighbor, &improved, &states_pruned, &make_entry]{
+                            if (tentative_gscore < neighbor.gscore) { // several actions can lead to the same state
+                                if (_debug_logs) spdlog::debug("New gscore: " +
+                                                               StringConverter::from(best_tip_node->gscore) + "+" +
+                                                               StringConverter::from(transition_cost) + "=" +
+                                                               StringConverter::from(tentative_gscore) +
+                                                               ExecutionPolicy::print_thread());
+                                improved = true;
+                                neighbor.gscore = tentative_gscore;
+                                neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
+                            }
 
-                        if ((i.second) || (tentative_depth < neighbor.depth)) {
-                            if (_debug_logs) spdlog::debug("New depth: " +
-                                                           StringConverter::from(best_tip_node->depth) + "+" +
-                                                           StringConverter::from(1) + "=" +
-                                                           StringConverter::from(tentative_depth) +
-                                                           ExecutionPolicy::print_thread());
-                            improved = true;
-                            neighbor.depth = tentative_depth;
-                        }
+                            if (tentative_depth < neighbor.depth) {
+                                if (_debug_logs) spdlog::debug("New depth: " +
+                                                               StringConverter::from(best_tip_node->depth) + "+" +
+                                                               StringConverter::from(1) + "=" +
+                                                               StringConverter::from(tentative_depth) +
+                                                               ExecutionPolicy::print_thread());
+                                improved = true;
+                                neighbor.depth = tentative_depth;
+                            }
 
-                        _execution_policy.protect([this, &feature_tuples, &open_queue, &closed_set, &generated_set, &neighbor, &improved, &states_pruned, &make_entry]{
                             if (!(generated_set.insert(&neighbor).second)) { // already generated
                                 if (improved && !(neighbor.pruned) && (closed_set.find(&neighbor) == closed_set.end())) {
                                     open_queue.push(make_entry(&neighbor));
-- 
2.43.0


From 9173a922b058c6d0d708ea822adbec16c55c57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 229/243] fix: BFWS lets two parallel actions update the same
 neighbour at once

---
 cpp/src/hub/solver/bfws.hh | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/cpp/src/hub/solver/bfws.hh b/cpp/src/hub/solver/bfws.hh
index aff65e4..6abf227 100644
--- a/cpp/src/hub/solver/bfws.hh
+++ b/cpp/src/hub/solver/bfws.hh
@@ -209,20 +209,20 @@ public :
                     double transition_cost = _domain.get_transition_cost(best_tip_node->state, a, neighbor.state);
                     double tentative_gscore = best_tip_node->gscore + transition_cost;
 
-                    if ((i.second) || (tentative_gscore < neighbor.gscore)) {
-                        if (_debug_logs) spdlog::debug("New gscore: " +
-                                                       StringConverter::from(best_tip_node->gscore) + "+" +
-                                                       StringConverter::from(transition_cost) + "=" +
-                                                       StringConverter::from(tentative_gscore) +
-                                                       ExecutionPolicy::print_thread());
-                        neighbor.gscore = tentative_gscore;
-                        neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                    }
-
-                    neighbor.heuristic = _heuristic(_domain, neighbor.state);
-                    if (_debug_logs) spdlog::debug("Heuristic: " + StringConverter::from(neighbor.heuristic) +
+                    double heuristic = _heuristic(_domain, neighbor.state);
+                    if (_debug_logs) spdlog::debug("Heuristic: " + StringConverter::from(heuristic) +
                                                    ExecutionPolicy::print_thread());
-                    _execution_policy.protect([this, &heuristic_features_map, &open_queue, &neighbor]{
+                    _execution_policy.protect([this, &best_tip_node, &a, &transition_cost, &tentative_gscore, &heuristic, &heuristic_features_map, &open_queue, &neighbor]{
+                        if (tentative_gscore < neighbor.gscore) { // several actions can lead to the same state
+                            if (_debug_logs) spdlog::debug("New gscore: " +
+                                                           StringConverter::from(best_tip_node->gscore) + "+" +
+                                                           StringConverter::from(transition_cost) + "=" +
+                                                           StringConverter::from(tentative_gscore) +
+                                                           ExecutionPolicy::print_thread());
+                            neighbor.gscore = tentative_gscore;
+                            neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
+                        }
+                        neighbor.heuristic = heuristic;
                         neighbor.novelty = this->novelty(heuristic_features_map, neighbor.heuristic, neighbor);
                         open_queue.push(QueueEntry(neighbor.heuristic, neighbor.novelty, &neighbor));
                         if (_debug_logs) spdlog::debug("Novelty: " + StringConverter::from(neighbor.novelty) +
-- 
2.43.0


From 82ff693c01512fc40266026310cb005b644b0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 230/243] fix: LRTDP lets other threads use a state before its
 value and goal flag are set

---
 cpp/src/hub/solver/lrtdp.hh | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index 0ce2fe4..1ad26b2 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -263,27 +263,28 @@ private :
 
             for (auto ns : next_states) {
                 std::pair<typename Graph::iterator, bool> i;
-                _execution_policy.protect([this, &i, &ns]{
+                // the other threads must not see a new node before it is initialized
+                _execution_policy.protect([this, &i, &ns, &thread_id]{
                     i = _graph.emplace(ns.state());
+                    if (i.second) { // new node
+                        StateNode& new_node = const_cast<StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
+                        if (_goal_checker(_domain, new_node.state, thread_id)) {
+                            if (_debug_logs) spdlog::debug("Found goal state " + new_node.state.print() + ExecutionPolicy::print_thread());
+                            new_node.goal = true;
+                            new_node.solved = true;
+                            new_node.best_value = 0.0;
+                        } else {
+                            new_node.best_value = _heuristic(_domain, new_node.state, thread_id);
+                            if (_debug_logs) spdlog::debug("New state " + new_node.state.print() +
+                                                           " with heuristic value " + StringConverter::from(new_node.best_value) +
+                                                           ExecutionPolicy::print_thread());
+                        }
+                    }
                 });
                 StateNode& next_node = const_cast<StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
                 an.outcomes.push_back(std::make_tuple(ns.probability(), _domain.get_transition_cost(s->state, a, next_node.state, thread_id), &next_node));
                 outcome_weights.push_back(std::get<0>(an.outcomes.back()));
                 if (_debug_logs) spdlog::debug("Current next state expansion: " + next_node.state.print() + ExecutionPolicy::print_thread());
-
-                if (i.second) { // new node
-                    if (_goal_checker(_domain, next_node.state, thread_id)) {
-                        if (_debug_logs) spdlog::debug("Found goal state " + next_node.state.print() + ExecutionPolicy::print_thread());
-                        next_node.goal = true;
-                        next_node.solved = true;
-                        next_node.best_value = 0.0;
-                    } else {
-                        next_node.best_value = _heuristic(_domain, next_node.state, thread_id);
-                        if (_debug_logs) spdlog::debug("New state " + next_node.state.print() +
-                                                       " with heuristic value " + StringConverter::from(next_node.best_value) +
-                                                       ExecutionPolicy::print_thread());
-                    }
-                }
             }
 
             an.dist = std::discrete_distribution<>(outcome_weights.begin(), outcome_weights.end());
-- 
2.43.0


From cc568452c1dfb5a73c628ffde367d42361db9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 231/243] fix: RIW lets other threads use a state before its
 depth and terminal flag are set

---
 cpp/src/hub/solver/riw.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index a205bae..3b4608c 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -744,10 +744,15 @@ private :
                     outcome = _rollout_policy.progress(_domain, node->state, std::get<0>(node->children[action_number]), thread_id);
                 }, node->mutex);
                 
-                _execution_policy.protect([this, &node_child, &thread_id, &new_node, &outcome](){
+                // the other threads must not see a new node before it is initialized
+                _execution_policy.protect([this, &node, &node_child, &thread_id, &new_node, &outcome](){
                     auto i = _graph.emplace(Node(outcome.state(), _domain, _state_features, thread_id));
                     new_node = i.second;
                     node_child = &const_cast<Node&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
+                    if (new_node) {
+                        node_child->depth = node->depth + 1;
+                        node_child->terminal = outcome.terminal();
+                    }
                 });
                 Node& next_node = *node_child;
                 _execution_policy.protect([&node, &action_number, &outcome, &node_child](){
@@ -767,9 +772,7 @@ private :
                                                        ", depth=" + StringConverter::from(next_node.depth) +
                                                        ", value=" + StringConverter::from(next_node.value) +
                                                        ExecutionPolicy::print_thread());
-                        next_node.depth = node->depth + 1;
                         node = &next_node;
-                        node->terminal = outcome.terminal();
                         if (node->terminal && _min_reward > 0.0) {
                             _min_reward = 0.0;
                             _min_reward_changed = true;
-- 
2.43.0


From d2c9a62643ec4e0451f9ad485d04192ed6b6bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 232/243] fix: MCTS loses the outcome distribution of an action
 expanded by two threads and uses nodes before they are initialized

---
 cpp/src/hub/solver/mcts.hh | 115 +++++++++++++++++++++----------------
 1 file changed, 67 insertions(+), 48 deletions(-)

diff --git a/cpp/src/hub/solver/mcts.hh b/cpp/src/hub/solver/mcts.hh
index 2c70a1f..5bb40c5 100644
--- a/cpp/src/hub/solver/mcts.hh
+++ b/cpp/src/hub/solver/mcts.hh
@@ -308,6 +308,10 @@ public :
                                           Tsolver::ExecutionPolicy::print_thread());
                         }, uo.second->mutex);
                     }
+                    if constexpr (std::is_same<typename Tsolver::TransitionMode, StepTransitionMode<Tsolver>>::value) {
+                        // the outcome was generated by another thread: this thread's environment must reach it too
+                        return expand_action(solver, thread_id, solver.transition_mode(), n, *(uo.first));
+                    }
                     return uo.second;
                 }
             }
@@ -333,12 +337,23 @@ public :
             std::vector<typename Tsolver::StateNode*> untried_outcomes;
             std::vector<double> weights;
             std::vector<double> outcome_weights;
+            typename Tsolver::ActionNode::OutcomeMap outcomes;
+            std::vector<typename Tsolver::ActionNode::OutcomeMap::iterator> dist_to_outcome;
 
             for (auto ns : next_states) {
                 std::pair<typename Tsolver::Graph::iterator, bool> i;
 
-                solver.execution_policy().protect([&i, &solver, &ns](){
+                // the other threads must not see a new node before it is initialized
+                solver.execution_policy().protect([this, &i, &solver, &thread_id, &ns](){
                     i = solver.graph().emplace(ns.state());
+
+                    if (i.second) { // new node
+                        typename Tsolver::StateNode& new_node = const_cast<typename Tsolver::StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
+                        new_node.terminal = solver.domain().is_terminal(new_node.state, thread_id);
+                        std::pair<double, std::size_t> h = _heuristic(solver.domain(), new_node.state, thread_id);
+                        new_node.value = h.first;
+                        new_node.visits_count = h.second;
+                    }
                 });
 
                 typename Tsolver::StateNode& next_node = const_cast<typename Tsolver::StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
@@ -348,35 +363,24 @@ public :
                     reward = solver.domain().get_transition_reward(state.state, action.action, next_node.state, thread_id);
                 }, next_node.mutex);
 
-                solver.execution_policy().protect([&action, &next_node, &outcome_weights, &reward, &ns](){
-                    auto ii = action.outcomes.insert(std::make_pair(&next_node, std::make_pair(reward, 1)));
-
-                    if (ii.second) { // new outcome
-                        action.dist_to_outcome.push_back(ii.first);
-                        outcome_weights.push_back(ns.probability());
-                    } else { // existing outcome (following code not efficient but hopefully very rare case if domain is well defined)
-                        for (unsigned int oid = 0 ; oid < outcome_weights.size() ; oid++) {
-                            if (action.dist_to_outcome[oid]->first == ii.first->first) { // found my outcome!
-                                std::pair<double, std::size_t>& mp = ii.first->second;
-                                mp.first = ((double) (outcome_weights[oid] * mp.first) + (reward * ns.probability())) / ((double) (outcome_weights[oid] + ns.probability()));
-                                outcome_weights[oid] += ns.probability();
-                                mp.second += 1; // useless in this mode a priori, but just keep track for coherency
-                                break;
-                            }
+                auto ii = outcomes.insert(std::make_pair(&next_node, std::make_pair(reward, 1)));
+
+                if (ii.second) { // new outcome
+                    dist_to_outcome.push_back(ii.first);
+                    outcome_weights.push_back(ns.probability());
+                } else { // existing outcome (following code not efficient but hopefully very rare case if domain is well defined)
+                    for (unsigned int oid = 0 ; oid < outcome_weights.size() ; oid++) {
+                        if (dist_to_outcome[oid]->first == ii.first->first) { // found my outcome!
+                            std::pair<double, std::size_t>& mp = ii.first->second;
+                            mp.first = ((double) (outcome_weights[oid] * mp.first) + (reward * ns.probability())) / ((double) (outcome_weights[oid] + ns.probability()));
+                            outcome_weights[oid] += ns.probability();
+                            mp.second += 1; // useless in this mode a priori, but just keep track for coherency
+                            break;
                         }
                     }
-                }, action.parent->mutex);
-
-                solver.execution_policy().protect([this, &next_node, &action, &i, &solver, &thread_id, &untried_outcomes, &weights, &ns](){
-                    next_node.parents.insert(&action);
-
-                    if (i.second) { // new node
-                        next_node.terminal = solver.domain().is_terminal(next_node.state, thread_id);
-                        std::pair<double, std::size_t> h = _heuristic(solver.domain(), next_node.state, thread_id);
-                        next_node.value = h.first;
-                        next_node.visits_count = h.second;
-                    }
+                }
 
+                solver.execution_policy().protect([&next_node, &solver, &untried_outcomes, &weights, &ns](){
                     if (next_node.actions.empty()) {
                         if (solver.debug_logs()) spdlog::debug("Candidate next state: " + next_node.state.print() +
                                                                Tsolver::ExecutionPolicy::print_thread());
@@ -386,24 +390,35 @@ public :
                 }, next_node.mutex);
             }
 
-            // Record the action's outcomes distribution
-            solver.execution_policy().protect([&action, &outcome_weights](){
-                action.dist = std::discrete_distribution<>(outcome_weights.begin(), outcome_weights.end());
+            // Record the action's outcomes and their distribution, unless another thread has expanded the same action meanwhile
+            std::vector<typename Tsolver::StateNode*> next_nodes;
+            for (const auto& o : outcomes) {
+                next_nodes.push_back(o.first);
+            }
+
+            solver.execution_policy().protect([&action, &outcomes, &dist_to_outcome, &outcome_weights](){
+                if (action.outcomes.empty()) {
+                    action.outcomes.swap(outcomes); // iterators remain valid
+                    action.dist_to_outcome.swap(dist_to_outcome);
+                    action.dist = std::discrete_distribution<>(outcome_weights.begin(), outcome_weights.end());
+                }
             }, action.parent->mutex);
 
+            for (auto& next_node : next_nodes) {
+                solver.execution_policy().protect([&action, &next_node](){
+                    next_node->parents.insert(&action);
+                }, next_node->mutex);
+            }
+
             // Pick a random next state
             if (untried_outcomes.empty()) {
                 // All next states already visited => pick a random next state using action.dist
-                std::size_t outcome_id = 0;
-
-                solver.execution_policy().protect([&outcome_id, &action, &solver](){
-                    outcome_id = action.dist(solver.gen());
-                }, solver.gen_mutex());
-
                 typename Tsolver::StateNode* outcome = nullptr;
 
-                solver.execution_policy().protect([&action, &outcome, &outcome_id](){
-                    outcome = action.dist_to_outcome[outcome_id]->first;
+                solver.execution_policy().protect([&action, &outcome, &solver](){
+                    solver.execution_policy().protect([&action, &outcome, &solver](){
+                        outcome = action.dist_to_outcome[action.dist(solver.gen())]->first;
+                    }, solver.gen_mutex());
                 }, action.parent->mutex);
 
                 return outcome;
@@ -444,26 +459,30 @@ public :
             typename Tsolver::Domain::TransitionOutcome to = transition_mode.random_next_outcome(solver, thread_id, state.state, action.action);
             std::pair<typename Tsolver::Graph::iterator, bool> i;
 
-            solver.execution_policy().protect([&i, &solver, &to](){
+            // the other threads must not see a new node before it is initialized
+            solver.execution_policy().protect([this, &i, &solver, &thread_id, &to](){
                 i = solver.graph().emplace(to.state());
+
+                if (i.second) { // new node
+                    typename Tsolver::StateNode& new_node = const_cast<typename Tsolver::StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
+                    new_node.terminal = to.terminal();
+                    std::pair<double, std::size_t> h = _heuristic(solver.domain(), new_node.state, thread_id);
+                    new_node.value = h.first;
+                    new_node.visits_count = h.second;
+                }
             });
             
             typename Tsolver::StateNode& next_node = const_cast<typename Tsolver::StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
             
             solver.execution_policy().protect([&action, &next_node, &to](){
                 auto ii = action.outcomes.insert(std::make_pair(&next_node, std::make_pair(to.reward(), 1)));
-                action.dist_to_outcome.push_back(ii.first);
+                if (ii.second) { // otherwise another thread has expanded the same action meanwhile
+                    action.dist_to_outcome.push_back(ii.first);
+                }
             }, action.parent->mutex);
 
-            solver.execution_policy().protect([this, &next_node, &action, &i, &to, &solver, &thread_id](){
+            solver.execution_policy().protect([&next_node, &action](){
                 next_node.parents.insert(&action);
-
-                if (i.second) { // new node
-                    next_node.terminal = to.terminal();
-                    std::pair<double, std::size_t> h = _heuristic(solver.domain(), next_node.state, thread_id);
-                    next_node.value = h.first;
-                    next_node.visits_count = h.second;
-                }
             }, next_node.mutex);
 
             // Record the action's outcomes distribution
-- 
2.43.0


From fae6ede5cea86aae93952ed25d164b17c837e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 233/243] fix: DiscreteDistribution keeps iterators invalidated
 by rehashing and by copying

---
 cpp/src/core.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/src/core.hh b/cpp/src/core.hh
index 501d8df..ed01a88 100644
--- a/cpp/src/core.hh
+++ b/cpp/src/core.hh
@@ -193,23 +193,23 @@ public :
         for (InputIt i = iBegin; i != iEnd; i++) {
             std::pair<typename Container<T, double>::iterator, bool> r = m_values.insert(*i);
             if (r.second) {
-                m_indexes.push_back(r.first);
+                m_elements.push_back(r.first->first);
             } else {
                 r.first->second += i->second;
             }
         }
 
         if (m_values.empty()) {
-            m_indexes.push_back(m_values.insert(std::make_pair(T(), 1.0)).first);
+            m_elements.push_back(m_values.insert(std::make_pair(T(), 1.0)).first->first);
         }
 
         std::vector<double> probabilities;
-        std::for_each(m_indexes.begin(), m_indexes.end(), [&](const auto& i){probabilities.push_back(i->second);});
+        std::for_each(m_elements.begin(), m_elements.end(), [&](const auto& e){probabilities.push_back(m_values.at(e));});
         m_distribution.param(typename std::discrete_distribution<IntType>::param_type(probabilities.begin(), probabilities.end()));
         probabilities = m_distribution.probabilities(); // get normalized probabilities
 
         for (std::size_t i = 0 ; i < probabilities.size() ; i++) {
-            m_indexes[i]->second = probabilities[i];
+            m_values.at(m_elements[i]) = probabilities[i];
         }
     }
 
@@ -223,7 +223,7 @@ public :
      * Returning a sample from the distribution
      */
     virtual T sample() {
-        return m_indexes[m_distribution(m_generator)]->first;
+        return m_elements[m_distribution(m_generator)];
     }
 
     /**
@@ -235,7 +235,7 @@ public :
 
 private :
     Container<T, double> m_values;
-    std::vector<typename Container<T, double>::iterator> m_indexes;
+    std::vector<T> m_elements; // copied rather than iterators: insertions can rehash m_values, and the distribution can be copied
     Generator m_generator;
     std::discrete_distribution<IntType> m_distribution;
 };
-- 
2.43.0


From cd6e09b0c9b45e58305dbc18953fee5bec415ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 234/243] fix: reset() of C++ domains leaves the internal
 memory uninitialized

---
 cpp/src/builders/domain/initialization.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/builders/domain/initialization.hh b/cpp/src/builders/domain/initialization.hh
index 18084ba..2e6eaa2 100644
--- a/cpp/src/builders/domain/initialization.hh
+++ b/cpp/src/builders/domain/initialization.hh
@@ -32,7 +32,7 @@ public :
     Observation reset() {
         State initial_state = _reset();
         Observation initial_observation = this->get_observation_distribution(initial_state, nullptr)->sample();
-        auto _memory = this->_init_memory({initial_state});
+        this->_memory = this->_init_memory({initial_state});
         return initial_observation;
     }
 
-- 
2.43.0


From ad92feb7f23ca0b848cd8b7690f2cd23a769b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 235/243] fix: event and action queries of C++ domains do not
 compile

---
 cpp/src/builders/domain/events.hh | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cpp/src/builders/domain/events.hh b/cpp/src/builders/domain/events.hh
index 23e25ed..0f01eca 100644
--- a/cpp/src/builders/domain/events.hh
+++ b/cpp/src/builders/domain/events.hh
@@ -52,15 +52,15 @@ public :
     virtual EnabledEventSpacePtr get_enabled_events(const StateMemory& memory) = 0;
 
     inline EnabledEventSpacePtr get_enabled_events() {
-        return get_enabled_events(this->_memory);
+        return get_enabled_events(_checked_memory());
     }
 
     inline bool is_enabled_event(const Event& event, const StateMemory& memory) {
-        return get_enabled_events(memory).contains(event);
+        return get_enabled_events(memory)->contains(event);
     }
 
     inline bool is_enabled_event(const Event& event) {
-        return is_enabled_event(event, this->_memory);
+        return is_enabled_event(event, _checked_memory());
     }
 
     const ActionSpace& get_action_space() {
@@ -77,15 +77,15 @@ public :
     virtual ApplicableActionSpacePtr get_applicable_actions(const StateMemory& memory) = 0;
 
     inline ApplicableActionSpacePtr get_applicable_actions() {
-        return get_applicable_actions(this->_memory);
+        return get_applicable_actions(_checked_memory());
     }
 
     inline bool is_applicable_action(const Event& event, const StateMemory& memory) {
-        return get_applicable_actions(memory).contains(event);
+        return get_applicable_actions(memory)->contains(event);
     }
 
     inline bool is_applicable_action(const Event& event) {
-        return is_applicable_action(event, this->_memory);
+        return is_applicable_action(event, _checked_memory());
     }
 
 protected :
@@ -93,6 +93,13 @@ protected :
     virtual ActionSpacePtr make_action_space() =0;
 
 private :
+    const StateMemory& _checked_memory() const {
+        if (!(this->_memory))
+            throw std::invalid_argument("Uninitialized internal state memory");
+
+        return *(this->_memory);
+    }
+
     EventSpacePtr _event_space;
     ActionSpacePtr _action_space;
 };
-- 
2.43.0


From 903c8d64c152e3b0b464b9dc1c3cf6ccefe4428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 236/243] fix: the mutations of the travelling thief can be
 imported and follow the current mutation interface

---
 .../ttp/solver/mutation_ttp.py                | 69 +++++++++++--------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/ttp/solver/mutation_ttp.py b/skdecide/builders/discrete_optimization/ttp/solver/mutation_ttp.py
index 34e751f..16619af 100644
--- a/skdecide/builders/discrete_optimization/ttp/solver/mutation_ttp.py
+++ b/skdecide/builders/discrete_optimization/ttp/solver/mutation_ttp.py
@@ -1,8 +1,8 @@
 import os, sys
 sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../../"))
 from skdecide.builders.discrete_optimization.ttp.ttp_model import TTPModel, TTPSolution
-from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import Variables, Mutation
-from typing import Tuple
+from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation, LocalMove, LocalMoveDefault
+from typing import Tuple, Dict
 import numpy as np
 import random
 
@@ -66,8 +66,10 @@ class MutationTTPKnapsack(Mutation):
             var = TTPSolution(variable.tour, np.copy(variable.packing))
             var.packing[index] = self.item_to_city[index]
             return var
-        else:
+        elif any(city != -1 for city in variable.packing):
             return self.switch_off(variable)
+        else:
+            return variable
 
     def switch_off(self, variable: TTPSolution):
         used = [i for i in range(self.ttp_model.numberOfItems) if variable.packing[i]!=-1]
@@ -81,15 +83,17 @@ class MutationTTPKnapsack(Mutation):
         else:
             return self.switch_on(variable)
 
-    def mutate(self, variable: TTPSolution)->Variables:
+    def mutate(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove]:
         r = random.random()
         if r<0.6:
-            return self.switch_on(variable)
+            new_variable = self.switch_on(variable)
         else:
-            return self.switch_off(variable)
-        
-    def mutate_and_compute_obj(self, variable: Variables)->Tuple[Variables, float]:
-        ...
+            new_variable = self.switch_off(variable)
+        return new_variable, LocalMoveDefault(variable, new_variable)
+
+    def mutate_and_compute_obj(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove, Dict[str, float]]:
+        new_variable, move = self.mutate(variable)
+        return new_variable, move, self.ttp_model.evaluate(new_variable)
 
 class MutationTTPKnapsackBest(Mutation):
     def __init__(self, ttp_model: TTPModel):
@@ -121,7 +125,7 @@ class MutationTTPKnapsackBest(Mutation):
             for i in index:
                 var = TTPSolution(variable.tour, variable.packing)
                 var.packing[i] = self.item_to_city[i]
-                value = self.ttp_model.evaluate(var)
+                value = self.ttp_model.evaluate(var)['obj']
 
                 if value >= best_value:
                     index_best = i
@@ -151,7 +155,7 @@ class MutationTTPKnapsackBest(Mutation):
                 var = TTPSolution(variable.tour, variable.packing)
                 prev = var.packing[i]
                 var.packing[i] = -1
-                value = self.ttp_model.evaluate(var)
+                value = self.ttp_model.evaluate(var)['obj']
                 if value >= best_value:
                     index_best = i
                     best_value = value
@@ -169,15 +173,17 @@ class MutationTTPKnapsackBest(Mutation):
             #print("No used "+str(variable.weight_used))
             #return self.switch_on(variable)
 
-    def mutate(self, variable: TTPSolution)->Variables:
+    def mutate(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove]:
         r = random.random()
         if r<0.6:
-            return self.switch_on(variable)
+            new_variable = self.switch_on(variable)
         else:
-            return self.switch_off(variable)
-        
-    def mutate_and_compute_obj(self, variable: Variables)->Tuple[Variables, float]:
-        ...
+            new_variable = self.switch_off(variable)
+        return new_variable, LocalMoveDefault(variable, new_variable)
+
+    def mutate_and_compute_obj(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove, Dict[str, float]]:
+        new_variable, move = self.mutate(variable)
+        return new_variable, move, self.ttp_model.evaluate(new_variable)
 
 
 class Mutation2Opt(Mutation):
@@ -209,7 +215,8 @@ class Mutation2Opt(Mutation):
                                      nb_tests=min(100, self.nb_node-1))
         else:
             ints = []
-            range_its = range(1, self.nb_node) if self.test_all else random.sample(range(1, self.nb_node), self.nb_test)
+            range_its = range(1, self.nb_node) if self.test_all else random.sample(range(1, self.nb_node),
+                                                                                   min(self.nb_test, self.nb_node-1))
             for i in range_its:
                 if i == self.nb_node-1:
                     range_jts = []
@@ -222,16 +229,15 @@ class Mutation2Opt(Mutation):
         return ints
 
 
-    def mutate_and_compute_obj(self, variable: TTPSolution):
+    def mutate_and_compute_obj(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove, Dict[str, float]]:
         min_change = -float('inf')
         current_objective = variable.objective
         cur_var = None
-        range_its = range(1, self.nb_node) if self.test_all else random.sample(range(1, self.nb_node), self.nb_test)
         ints = self.compute_i_j(variable)
         for i, j in ints:
             permut = np.concatenate((variable.tour[:i], variable.tour[i:j+1][::-1], variable.tour[j+1:]))
             sol = TTPSolution(permut, variable.packing)
-            value = self.ttp_model.evaluate(sol)
+            value = self.ttp_model.evaluate(sol)['obj']
             change = value-current_objective
             if change > min_change:
                 it = i
@@ -240,14 +246,14 @@ class Mutation2Opt(Mutation):
                 cur_var = sol
         if min_change>0 or not self.return_only_improvement:
             if cur_var is not None:
-                return cur_var, cur_var.objective
+                return cur_var, LocalMoveDefault(variable, cur_var), {"obj": cur_var.objective}
             else:
-                return variable, variable.objective
+                return variable, LocalMoveDefault(variable, variable), {"obj": variable.objective}
         else:
-            return variable, variable.objective
+            return variable, LocalMoveDefault(variable, variable), {"obj": variable.objective}
 
-    def mutate(self, variable: TTPSolution):
-        return self.mutate_and_compute_obj(variable)[0]
+    def mutate(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove]:
+        return self.mutate_and_compute_obj(variable)[:2]
 
 class MixingMutation(Mutation):
     def __init__(self,
@@ -267,19 +273,22 @@ class MixingMutation(Mutation):
         self.current_mode = "knap"
         self.current_iter = 0
     
-    def mutate(self, variable: TTPSolution):
+    def mutate(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove]:
+        return self.mutate_and_compute_obj(variable)[:2]
+
+    def mutate_and_compute_obj(self, variable: TTPSolution)->Tuple[TTPSolution, LocalMove, Dict[str, float]]:
         r = random.random()
         if r<=0.9:
             # follow current trend.
             if self.current_mode == "tsp": 
-                var = self.mutation_tsp.mutate(variable)
+                var = self.mutation_tsp.mutate_and_compute_obj(variable)
                 self.current_iter += 1
                 if self.current_iter >= self.limit_count["tsp"]:
                     self.current_iter = 0
                     self.current_mode = "knap"
                 return var
             if self.current_mode == "knap": 
-                var = self.mutation_knap.mutate(variable)
+                var = self.mutation_knap.mutate_and_compute_obj(variable)
                 self.current_iter += 1
                 if self.current_iter >= self.limit_count["knap"]:
                     self.current_iter = 0
@@ -288,7 +297,7 @@ class MixingMutation(Mutation):
         else:
 
             method = random.choice([self.mutation_knap, self.mutation_tsp])
-            return method.mutate(variable)            
+            return method.mutate_and_compute_obj(variable)            
 
     
 
-- 
2.43.0


From 2e23d374d2b6767bc33e93a836c18c9a96883f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 237/243] fix: the travelling thief model refuses broken tours,
 misplaced items and overweight knapsacks

---
 skdecide/builders/discrete_optimization/ttp/ttp_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_model.py b/skdecide/builders/discrete_optimization/ttp/ttp_model.py
index b401adc..a638bd1 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_model.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_model.py
@@ -41,8 +41,13 @@ def distance(point1, point2):
 
 class TTPModel(Problem):
     def satisfy(self, variable: Solution) -> bool:
-        # TODO do it
-        return True
+        tour, packing = list(variable.tour), list(variable.packing)
+        if tour[0] != tour[-1] or sorted(tour[:-1]) != list(range(self.numberOfNodes)):
+            return False
+        if any(packing[i] not in (-1, self.items[i]["node_index"]) for i in range(self.numberOfItems)):
+            return False
+        weight = sum(self.weights[i] for i in range(self.numberOfItems) if packing[i] != -1)
+        return bool(weight <= self.capacityOfKnapsack)
 
     def get_attribute_register(self) -> EncodingRegister:
         dict_attribute = {"tour":
-- 
2.43.0


From 5c18ff952849ca4805c21e21bd11dc2412977c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 238/243] fix: AO* does not take two paths of different lengths
 to a state for a cycle

---
 cpp/src/hub/solver/aostar.hh | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index f17ee43..8e72dc0 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -127,8 +127,7 @@ public :
                 }
 
                 // Back-propagate value function from best tip node
-                std::unique_ptr<std::unordered_set<StateNode*>> explored_states; // only for detecting cycles
-                if (_detect_cycles) explored_states = std::make_unique<std::unordered_set<StateNode*>>(frontier);
+                std::size_t nb_backups = 0; // only for detecting cycles
                 while (!frontier.empty()) {
                     std::unordered_set<StateNode*> new_frontier;
                     std::for_each(ExecutionPolicy::policy, frontier.begin(), frontier.end(), [this, &new_frontier](const auto& fs){
@@ -163,13 +162,9 @@ public :
                         });
                     });
                     frontier = new_frontier;
-                    if (_detect_cycles) {
-                        for (const auto& ps : new_frontier) {
-                            if (explored_states->find(ps) != explored_states->end()) {
-                                throw std::logic_error("SKDECIDE exception: cycle detected in the MDP graph! [with state " + ps->state.print() + "]");
-                            }
-                            explored_states->insert(ps);
-                        }
+                    // a state can be reached back by several paths of different lengths, but no path of an acyclic graph is longer than the graph
+                    if (_detect_cycles && !(frontier.empty()) && (++nb_backups > _graph.size())) {
+                        throw std::logic_error("SKDECIDE exception: cycle detected in the MDP graph! [with state " + (*(frontier.begin()))->state.print() + "]");
                     }
                 }
 
-- 
2.43.0


From 69eb24f42b06dc6385abcdb0cebeee2dc0446fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:46 +0000
Subject: [PATCH 239/243] fix: the iterative multi-skill calendar solver
 returns solutions that respect the calendars

---
 .../rcpsp_multiskill/solvers/calendar_solver_iterative.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index aa78546..20cd8ed 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -460,6 +460,12 @@ class SolverWithCalendarIterative(SolverDO):
                 if current_nb_iteration_no_improvement > nb_iteration_no_improvement:
                     print("Finish LNS with maximum no improvement iteration ")
                     break
+        if store_with_all is not None:
+            # The solutions of the relaxed problem (without calendar) are not solutions of the problem.
+            satisfiable = [(s, f) for s, f in store_with_all.list_solution_fits
+                           if "satisfy" in s.__dict__.keys() and s.satisfy]
+            if len(satisfiable) > 0:
+                store_with_all = ResultStorage(list_solution_fits=satisfiable, mode_optim=store_with_all.mode_optim)
         return store_with_all
 
 
-- 
2.43.0


From 03bb6e03fb95618e89798f78c07dfac7cbbc8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 240/243] fix: multi-skill schedules with calendars may use the
 whole calendar

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 3a983f0..a0e67d2 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -152,7 +152,8 @@ int: max_mrreq = if nb_res>0 then max(k in Res, m in Mod)(mrreq[k,m]) else 0 end
 %---------------------------------------------------------------------------%
 % Variables
 int: max_time;
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
+    % The calendars may leave gaps in the schedule: only their end bounds it
+int: UB = max_time;
 set of int: TIME_ARR=1..max_time+1;
 set of int: TIME_ARR0=0..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
-- 
2.43.0


From b1fbcc6b44656a524a87900964bff261c07626df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 241/243] fix: the unit calendars of the multi-skill constraint
 program excluded every schedule with tasks of no duration

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn        | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index a0e67d2..0bdc828 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -88,13 +88,8 @@ endif);
 % Unit used available
 constraint
     if add_calendar_constraint_unit then
-        forall(i in Act)(
-             forall(w in Units)(
-                 let{var TIME_ARR0: st=start[i],
-                     var TIME_ARR0: end=start[i]+adur[i]} in (
-                        unit_used[w, i] <= min(t in st..end-1)(ressource_unit_capacity_time0[w, t])
-                     )
-             )
+        forall(i in Act, w in Units, t in TIME_ARR0 where ressource_unit_capacity_time0[w, t] = 0)(
+             not (unit_used[w, i] /\ start[i] <= t /\ t < start[i]+adur[i])
       )
     endif;
 
-- 
2.43.0


From d4ef84d7bfbb8b14a0c36f5f0b865459ef08390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 242/243] fix: the multi-skill constraint program respects the
 calendars of the resources

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 0bdc828..c92f7cd 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -197,6 +197,12 @@ constraint forall(k in RRes)(
     cumulative(start, adur, [arreq[k,i] | i in Act], rcap[k])
 );
 
+    % Dates at which the calendar leaves less than the full capacity
+    %
+constraint forall(k in RRes, t in TIME_ARR0 where ressource_capacity_time0[k, t] < rcap[k])(
+    sum(i in Act)(bool2int(start[i] <= t /\ t < start[i] + adur[i]) * arreq[k,i]) <= ressource_capacity_time0[k, t]
+);
+
 
 
     % Non-renewable resource constraints
-- 
2.43.0


From 5874c1df99e5bcde052f7c48a8bb464f1eb380ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:04 +0000
Subject: [PATCH 243/243] fix: the multi-skill calendar post-processing never
 ended when its own solutions break the calendar

---
 .../rcpsp_multiskill/solvers/calendar_solver_iterative.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index 20cd8ed..57548da 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -170,7 +170,8 @@ class PostProcessSolutionNonFeasible(PostProcessSolution):
                                        for n in self.graph.nodes_name}
 
     def build_other_solution(self, result_storage: ResultStorage) -> ResultStorage:
-        for sol in result_storage.list_solution_fits:  # [-min(2, len(result_storage.list_solution_fits)):]:
+        # the loop adds solutions: they must not be post-processed in turn
+        for sol in list(result_storage.list_solution_fits):  # [-min(2, len(result_storage.list_solution_fits)):]:
             if "satisfy" not in sol[0].__dict__.keys():
                 rb, constraints, constraint_emp = get_ressource_breaks(self.problem_calendar, sol[0])
                 sol[0].satisfy = not(any(len(rb[r]) > 0 for r in rb))
-- 
2.43.0


From 7ba01fc2a125100f95d9ca058cb154bdf047e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 01/29] fix: make the reported seed reproduce the execution

The model's generator was only seeded when a seed was passed explicitly, so the
activation order and the profiles of an execution with a drawn seed (or one read
from args.json) could not be reproduced from the seed listed in the output.
---
 logic/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..8e28c94 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,9 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        # mesa seeds its (class-wide) generator before a seed is drawn or read from a file, so use one that is
+        # specific to this execution and follows the seed that gets reported in the output
+        self.random = random.Random(seed)
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From d16cb610a893205d841cbbc6c50c1e2b61be4445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 02/29] fix: do not hand the inactive stake to the last agent

The correction for floating point errors assumed that agent stakes sum to 1, so
with inactive stake the last agent received all of it.
---
 logic/sim.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index 8e28c94..54217a6 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -125,7 +125,7 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(total_stake, args['inactive_stake_fraction'])
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -178,22 +178,24 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, inactive_stake_fraction=0):
         """
         Normalize agent stakes so that the total stake of the system is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param inactive_stake_fraction: the fraction of the total stake that does not belong to any of the agents
         """
         norm_total_stake = 0
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
-        if norm_total_stake != 1:
+        active_stake_fraction = 1 - inactive_stake_fraction
+        if norm_total_stake != active_stake_fraction:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
-            flt_error = 1 - norm_total_stake
+            # sure that the sum of all agent stakes is equal to the active part of the total stake
+            flt_error = active_stake_fraction - norm_total_stake
             agent.stake += flt_error
             norm_total_stake += flt_error
-        return norm_total_stake
+        return norm_total_stake + inactive_stake_fraction
 
     def initialize_pool_id_seq(self):
         self.id_seq = 0
-- 
2.43.0


From 29f3e31f0e6c86f5faa4408e2a01071af0d9c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 03/29] fix: allow the CIP-7 reward scheme to be selected

Simulation instantiates reward schemes with k and a0 only, so --reward_scheme=3
always failed. Use the values proposed in CIP-7 as defaults.
---
 logic/reward_schemes.py | 250 ++++++++++++++++++++--------------------
 1 file changed, 125 insertions(+), 125 deletions(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..c38a63c 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -1,125 +1,125 @@
-TOTAL_EPOCH_REWARDS_R = 1
-
-
-class RSS:
-    """
-    Base class for the Reward Sharing Scheme that is used in the simulation.
-    Determines the rewards that a pool receives.
-    Note that this class cannot be used on its own, only its child-classes can be used, which must implement the
-    'calculate_pool_reward' method
-    """
-
-    def __init__(self, k, a0):
-        self.k = k
-        self.a0 = a0 
-
-    @property
-    def k(self):
-        return self._k
-
-    @k.setter
-    def k(self, k_value):
-        if k_value == 0:
-            raise ValueError('k parameter of reward scheme cannot be 0')
-        self._k = int(k_value)
-        # whenever k changes, the global saturation threshold also changes
-        self.global_saturation_threshold = TOTAL_EPOCH_REWARDS_R / k_value
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        raise NotImplementedError("RSS subclass must implement 'calculate_pool_reward' method.")
-
-    def get_pool_saturation_threshold(self, pool_pledge):
-        """
-        By default, the saturation point of all pools is given by the global_saturation_threshold. However, some
-        reward schemes may choose to have different saturation thresholds for different pools, depending on
-        their pledge for example. In these cases, this method would have to be overridden.
-        @param pool_pledge: the pledge of the relevant pool
-        @return: the saturation threshold of a pool with the given pledge
-        """
-        return self.global_saturation_threshold
-
-
-class CardanoRSS(RSS):
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pledge_ = min(pool_pledge, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
-            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
-                                            / self.global_saturation_threshold)))
-        return r
-
-
-class SimplifiedRSS(RSS):
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pledge_ = min(pool_pledge, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * stake_ * \
-            (1 + (self.a0 * pledge_ / self.global_saturation_threshold))
-        return r
-
-
-class FlatPledgeBenefitRSS(RSS):
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pledge_ = min(pool_pledge, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * (stake_ + self.a0 * pledge_)
-        return r
-
-
-class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
-        super().__init__(k=k, a0=a0)
-        self.crossover_factor = crossover_factor
-        self.curve_root = curve_root
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        crossover = self.global_saturation_threshold / self.crossover_factor
-        pledge_factor = (pool_pledge ** (1 / self.curve_root)) * (
-                    crossover ** ((self.curve_root - 1) / self.curve_root))
-        pledge_ = min(pledge_factor, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
-            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
-                                            / self.global_saturation_threshold)))
-        return r
-
-
-class CIP50RSS(RSS):
-    """
-    Reward scheme equivalent to that of CIP-50.
-    Note that even though it's possible to use this reward scheme in the simulation, it might not give accurate results
-    because our methodology was based on nuances of the original reward scheme that are not present in this one
-    (e.g. the expectation of ending up with k pools). There is a separate branch for this reward scheme that uses a
-    slightly different logic, which we believe is more compatible - please refer to that one for extensive
-    experimentation concerning CIP-50.
-    """
-
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pool_saturation_threshold = self.get_pool_saturation_threshold(pool_pledge)
-        r = TOTAL_EPOCH_REWARDS_R * min(pool_stake, pool_saturation_threshold)
-        return r
-
-    def get_pool_saturation_threshold(self, pool_pledge):
-        custom_saturation_threshold = self.a0 * pool_pledge
-        return min(custom_saturation_threshold, self.global_saturation_threshold)
-
-
-RSS_MAPPING = {
-    0: CardanoRSS,
-    1: SimplifiedRSS,
-    2: FlatPledgeBenefitRSS,
-    3: CurvePledgeBenefitRSS,
-    4: CIP50RSS
-}
+TOTAL_EPOCH_REWARDS_R = 1
+
+
+class RSS:
+    """
+    Base class for the Reward Sharing Scheme that is used in the simulation.
+    Determines the rewards that a pool receives.
+    Note that this class cannot be used on its own, only its child-classes can be used, which must implement the
+    'calculate_pool_reward' method
+    """
+
+    def __init__(self, k, a0):
+        self.k = k
+        self.a0 = a0 
+
+    @property
+    def k(self):
+        return self._k
+
+    @k.setter
+    def k(self, k_value):
+        if k_value == 0:
+            raise ValueError('k parameter of reward scheme cannot be 0')
+        self._k = int(k_value)
+        # whenever k changes, the global saturation threshold also changes
+        self.global_saturation_threshold = TOTAL_EPOCH_REWARDS_R / k_value
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        raise NotImplementedError("RSS subclass must implement 'calculate_pool_reward' method.")
+
+    def get_pool_saturation_threshold(self, pool_pledge):
+        """
+        By default, the saturation point of all pools is given by the global_saturation_threshold. However, some
+        reward schemes may choose to have different saturation thresholds for different pools, depending on
+        their pledge for example. In these cases, this method would have to be overridden.
+        @param pool_pledge: the pledge of the relevant pool
+        @return: the saturation threshold of a pool with the given pledge
+        """
+        return self.global_saturation_threshold
+
+
+class CardanoRSS(RSS):
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pledge_ = min(pool_pledge, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
+            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
+                                            / self.global_saturation_threshold)))
+        return r
+
+
+class SimplifiedRSS(RSS):
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pledge_ = min(pool_pledge, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * stake_ * \
+            (1 + (self.a0 * pledge_ / self.global_saturation_threshold))
+        return r
+
+
+class FlatPledgeBenefitRSS(RSS):
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pledge_ = min(pool_pledge, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * (stake_ + self.a0 * pledge_)
+        return r
+
+
+class CurvePledgeBenefitRSS(RSS):  # CIP-7
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
+        super().__init__(k=k, a0=a0)
+        self.crossover_factor = crossover_factor
+        self.curve_root = curve_root
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        crossover = self.global_saturation_threshold / self.crossover_factor
+        pledge_factor = (pool_pledge ** (1 / self.curve_root)) * (
+                    crossover ** ((self.curve_root - 1) / self.curve_root))
+        pledge_ = min(pledge_factor, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
+            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
+                                            / self.global_saturation_threshold)))
+        return r
+
+
+class CIP50RSS(RSS):
+    """
+    Reward scheme equivalent to that of CIP-50.
+    Note that even though it's possible to use this reward scheme in the simulation, it might not give accurate results
+    because our methodology was based on nuances of the original reward scheme that are not present in this one
+    (e.g. the expectation of ending up with k pools). There is a separate branch for this reward scheme that uses a
+    slightly different logic, which we believe is more compatible - please refer to that one for extensive
+    experimentation concerning CIP-50.
+    """
+
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pool_saturation_threshold = self.get_pool_saturation_threshold(pool_pledge)
+        r = TOTAL_EPOCH_REWARDS_R * min(pool_stake, pool_saturation_threshold)
+        return r
+
+    def get_pool_saturation_threshold(self, pool_pledge):
+        custom_saturation_threshold = self.a0 * pool_pledge
+        return min(custom_saturation_threshold, self.global_saturation_threshold)
+
+
+RSS_MAPPING = {
+    0: CardanoRSS,
+    1: SimplifiedRSS,
+    2: FlatPledgeBenefitRSS,
+    3: CurvePledgeBenefitRSS,
+    4: CIP50RSS
+}
-- 
2.43.0


From b962ab9d1869bd4f4b320723eafce912ee8e3f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 04/29] fix: keep delegations that change while a pool update
 is pending

With (semi)simultaneous activation an operator's update replaced the pool with a
copy made when the move was planned. Delegations that were added or withdrawn in
between were lost or resurrected, and delegations that were planned towards a
pool that turned private were still applied (or crashed later on).
---
 logic/stakeholder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..e073a45 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -351,12 +351,17 @@ class Stakeholder(Agent):
 
     def update_pool(self, pool_id):
         updated_pool = self.new_strategy.owned_pools[pool_id]
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
+        old_pool = self.strategy.owned_pools[pool_id]
+        if updated_pool.delegators != old_pool.delegators:
+            # delegations to the pool changed between the planning and the execution of the move, which can happen in
+            # case of (semi)simultaneous activation, so they have to be carried over to the updated pool
+            updated_pool.delegators = dict(old_pool.delegators)
+            updated_pool.stake = updated_pool.pledge + sum(updated_pool.delegators.values())
+        if updated_pool.is_private:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
         # update pool rankings
-        old_pool = self.strategy.owned_pools[pool_id]
         self.model.pool_rankings.remove(old_pool)
         self.model.pool_rankings.add(updated_pool)
         self.model.pool_rankings_myopic.remove(old_pool)
-- 
2.43.0


From 41b746300cfa2c59b5ccc8dce56e1bac5c146feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 05/29] fix: extend the rankings when k increases between
 phases

The rankings only had empty slots for the first value of k, so agents indexed
past their end after a change such as the documented --k 100 200.
---
 logic/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 54217a6..db6c779 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -427,6 +427,10 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        # k may have increased, so make sure that there are still enough empty slots in the rankings
+        missing_slots = self.reward_scheme.k + 1 - self.pool_rankings.count(None)
+        self.pool_rankings.update([None] * missing_slots)
+        self.pool_rankings_myopic.update([None] * missing_slots)
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From 41a0e12878dcc836a02adedbdcb9ad10bc2bc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 06/29] fix: count idle steps separately for every phase

The counter was carried over, so a single idle step after a parameter change was
enough to declare an equilibrium, regardless of iterations_after_convergence.
---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index db6c779..7305019 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -416,6 +416,7 @@ class Simulation(Model):
 
     def change_phase(self):
         self.current_phase += 1
+        self.consecutive_idle_steps = 0  # idle steps of the previous phase don't count towards the convergence of this one
         change_occured = False
         for pool in self.pools.values():
             self.pool_rankings.remove(pool)
-- 
2.43.0


From d04de83a9698f3fdeb23aa0edde318a92d04967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 07/29] fix: account for known inactive stake in every phase

Only the first value of k was adjusted for inactive_stake_fraction_known.
---
 logic/sim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index 7305019..eeece72 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -96,7 +96,10 @@ class Simulation(Model):
         if args['inactive_stake_fraction_known']:
             # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
             # to make it possible to end up with the original desired number of pools
-            self.reward_scheme.k = self.reward_scheme.k / (1 - args['inactive_stake_fraction'])
+            self.known_inactive_stake_fraction = args['inactive_stake_fraction']
+        else:
+            self.known_inactive_stake_fraction = 0
+        self.reward_scheme.k = self.reward_scheme.k / (1 - self.known_inactive_stake_fraction)
 
         self.running = True  # for batch running and visualisation purposes
         agent_activation_orders = {
@@ -426,7 +429,10 @@ class Simulation(Model):
                 instance = self
                 if key in vars(self.reward_scheme) or '_' + key in vars(self.reward_scheme):
                     instance = self.reward_scheme
-                setattr(instance, key, values[self.current_phase])
+                value = values[self.current_phase]
+                if key == 'k':
+                    value = value / (1 - self.known_inactive_stake_fraction)
+                setattr(instance, key, value)
                 change_occured = True
         # k may have increased, so make sure that there are still enough empty slots in the rankings
         missing_slots = self.reward_scheme.k + 1 - self.pool_rankings.count(None)
-- 
2.43.0


From 81398925564710ed7af91f95dbded9fa45809776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 08/29] fix: make the saved simulation object loadable

The key of the myopic ranking was a method of the model, which is not restored
yet when the ranking is rebuilt, so unpickling failed with an AttributeError.
---
 logic/helper.py | 12 ++++++++++++
 logic/sim.py    | 15 +++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..04b0271 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -494,6 +494,18 @@ def pool_comparison_key(pool):
     return -pool.desirability, -pool.potential_profit, pool.id
 
 
+def pool_comparison_key_myopic(pool, reward_scheme):
+    """
+    Sort pools based on their myopic desirability
+    break ties with pool id
+    """
+    if pool is None:
+        return 0, 0, 0
+    current_profit = calculate_current_profit(pool.stake, pool.pledge, pool.cost, reward_scheme)
+    myopic_desirability = calculate_myopic_pool_desirability(pool.margin, current_profit)
+    return -myopic_desirability, pool.id
+
+
 def positive_int(value):
     int_value = int(value)
     if int_value <= 0:
diff --git a/logic/sim.py b/logic/sim.py
index eeece72..32abcd6 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -4,6 +4,7 @@ import pathlib
 import math
 import random
 import pickle as pkl
+from functools import partial
 import numpy as np
 from sortedcontainers import SortedList
 from mesa import Model
@@ -114,8 +115,9 @@ class Simulation(Model):
         # Initialize rankings of the system's pools
         self.pool_rankings = SortedList([None] * (self.reward_scheme.k + 1),
                                         key=hlp.pool_comparison_key)  # all pools ranked from best to worst non-myopically
+        # note that the key must not refer to the model itself, otherwise a pickled model cannot be loaded
         self.pool_rankings_myopic = SortedList([None] * (self.reward_scheme.k + 1),
-                                               key=self.pool_comparison_key_myopic)  # all pools ranked from best to worst myopically
+                                               key=partial(hlp.pool_comparison_key_myopic, reward_scheme=self.reward_scheme))  # all pools ranked from best to worst myopically
 
         total_stake = self.initialize_agents(
             args['agent_profile_distr'], args['cost_min'], args['cost_max'], args['pareto_param'],
@@ -457,14 +459,3 @@ class Simulation(Model):
         self.save_model_state_pkl()
         if self.generate_graphs:
             self.export_graphs()
-
-    def pool_comparison_key_myopic(self, pool):
-        if pool is None:
-            return 0, 0, 0
-        # sort pools based on their myopic desirability
-        # break ties with pool id
-        current_profit = hlp.calculate_current_profit(
-            pool.stake, pool.pledge, pool.cost, self.reward_scheme
-        )
-        myopic_desirability = hlp.calculate_myopic_pool_desirability(pool.margin, current_profit)
-        return -myopic_desirability, pool.id
-- 
2.43.0


From 325437870a8b67aada96bd01d5e88eb40fd27c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 09/29] fix: write the sequence file atomically

An execution that was interrupted (or ran out of disk space) while writing
sequence.dat left it empty, and every later execution failed to parse it.
---
 logic/helper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 04b0271..cea85db 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -3,6 +3,7 @@ from numpy.random import default_rng
 import numpy as np
 from scipy import stats
 import csv
+import os
 import pathlib
 from math import floor, log10, fsum
 from functools import lru_cache
@@ -350,8 +351,11 @@ def read_seq_id(filename='sequence.dat'):
 
 
 def write_seq_id(seq, filename='sequence.dat'):
-    with open(filename, 'w') as f:
+    # replace the file in one step, so that it's never left empty or half-written if the execution gets interrupted
+    temp_filename = '{}.{}.tmp'.format(filename, os.getpid())
+    with open(temp_filename, 'w') as f:
         f.write(str(seq))
+    os.replace(temp_filename, filename)
 
 
 def write_to_csv(filepath, header, row):
-- 
2.43.0


From 893f71cc1e3fdfc8be9a16b76c10f13c0180dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 10/29] fix: handle pools without stake when calculating
 operator utility

Agents without stake, or CIP-50 pools with a0 = 0 (saturation point at 0), made
the simulation fail with a ZeroDivisionError.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index cea85db..820f50e 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -283,7 +283,7 @@ def calculate_myopic_pool_desirability(margin, current_profit):
 # @lru_cache(maxsize=1024)
 def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = pledge / pool_stake
+    stake_fraction = pledge / pool_stake if pool_stake > 0 else 1  # the stake of an empty pool is its operator's pledge
     return calculate_operator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                operator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From 9d122a8a03781ff2836886d78eb749a1816880eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 11/29] fix: write the header of shared csv files exactly once

The processes of a batch run append to the same files, and all those that found
a file empty wrote the header, which ended up in the middle of the results.
---
 logic/helper.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index 820f50e..f295f25 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -359,6 +359,17 @@ def write_seq_id(seq, filename='sequence.dat'):
 
 
 def write_to_csv(filepath, header, row):
+    # the same file may be written by many processes (e.g. in batch runs), so create it along with its header in one step
+    if not os.path.exists(filepath):
+        temp_filepath = '{}.{}.tmp'.format(filepath, os.getpid())
+        export_csv_file([header], temp_filepath)
+        try:
+            os.link(temp_filepath, filepath)
+        except OSError:
+            # either another process created the file in the meantime or links are not supported by the file system
+            pass
+        finally:
+            os.remove(temp_filepath)
     with open(filepath, 'a', newline='') as f:
         writer = csv.writer(f)
         if f.tell() == 0:
-- 
2.43.0


From 64456e5250aca0b818eb118499bd573a1eea7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 12/29] fix: do not append results to a row that was cut short

A row that could only be written partially (e.g. full disk) had no line
terminator, so the row of the next execution was merged into it.
---
 logic/helper.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index f295f25..1f64ec4 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -374,9 +374,18 @@ def write_to_csv(filepath, header, row):
         writer = csv.writer(f)
         if f.tell() == 0:
             writer.writerow(header)
+        elif not ends_with_newline(filepath):
+            # the previous row was cut short (e.g. because the disk was full), so don't let it corrupt this one as well
+            f.write('\r\n')
         writer.writerow(row)
 
 
+def ends_with_newline(filepath):
+    with open(filepath, 'rb') as f:
+        f.seek(-1, os.SEEK_END)
+        return f.read(1) == b'\n'
+
+
 def plot_line(data, execution_id, color, x_label, y_label, filename, equilibrium_steps, pivot_steps,
               path, title='', show_equilibrium=False):
     equilibrium_colour = 'mediumseagreen'
-- 
2.43.0


From a91f8c767d2c58d2b04a0162824c327b8a53ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 13/29] fix: define MAX_NUM_POOLS, which runViz imports

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 1f64ec4..63bde4f 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -20,7 +20,7 @@ from logic.reward_schemes import TOTAL_EPOCH_REWARDS_R
 
 sns.set_theme()
 
-# MAX_NUM_POOLS = 1000 # potentially needed for run_viz
+MAX_NUM_POOLS = 1000  # needed for runViz
 MIN_STAKE_UNIT = 2.2e-17
 
 
-- 
2.43.0


From 7658319ab8e3f5586503db603abc136126818c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 14/29] fix: skip empty ranking slots when summing up better
 pools

Pools that become unprofitable after a parameter change rank below the empty
slots, which made the simulation fail with an AttributeError.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 63bde4f..0fa4380 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -206,7 +206,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From 416dfb164af28ba5095089309d3be873acc0c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 15/29] fix: report the saturation rate of pools that saturate
 at zero stake

With CIP-50, a0 = 0 puts the saturation point of every pool at 0, and collecting
the metric failed with a ZeroDivisionError.
---
 logic/model_reporters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 5c14712..455e3f9 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -2,7 +2,7 @@ import statistics
 import collections
 from gekko import GEKKO
 import numpy as np
-from math import fsum
+from math import fsum, inf
 
 import logic.helper as hlp
 
@@ -69,7 +69,11 @@ def get_avg_sat_rate(model):
     current_pools = model.get_pools_list()
     if len(current_pools) == 0:
         return 0
-    sat_rates = [pool.stake / model.reward_scheme.get_pool_saturation_threshold(pool.pledge) for pool in current_pools]
+    saturation_thresholds = [model.reward_scheme.get_pool_saturation_threshold(pool.pledge) for pool in current_pools]
+    sat_rates = [
+        pool.stake / threshold if threshold > 0 else inf  # saturation point can be 0 in CIP-50
+        for pool, threshold in zip(current_pools, saturation_thresholds)
+    ]
     return statistics.mean(sat_rates)
 
 
-- 
2.43.0


From bb4422044465e29a89fa3ea61d14d9a9f5bb3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 16/29] fix: do not lose a pool to floating point error when k
 is inflated

---
 logic/reward_schemes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index c38a63c..0176364 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -21,7 +21,8 @@ class RSS:
     def k(self, k_value):
         if k_value == 0:
             raise ValueError('k parameter of reward scheme cannot be 0')
-        self._k = int(k_value)
+        # k may be inflated to a value like 9.999999999999998, which stands for 10 and shouldn't be truncated to 9
+        self._k = int(round(k_value, 9))
         # whenever k changes, the global saturation threshold also changes
         self.global_saturation_threshold = TOTAL_EPOCH_REWARDS_R / k_value
 
-- 
2.43.0


From 3497b0c04378d421345ee818a6280c41aceb11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 17/29] fix: tolerate floating point error when checking
 whether the better pools cover the stake

---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 0fa4380..72c06ef 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -208,7 +208,8 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     better_pools_stake_at_saturation = fsum(
         [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
-    rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
+    # (with some tolerance for floating point errors, as for example 49 pools that saturate at 1/49 add up to less than 1)
+    rank_in_top_pools = total_stake - better_pools_stake_at_saturation > 1e-12
     return calculate_non_myopic_pool_stake_from_rank(
         pool_pledge=pool.pledge,
         pool_stake=pool.stake,
-- 
2.43.0


From 1107a3c2b16883e221eaf3252a32a58cdde3a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 18/29] fix: report the Nakamoto coefficient as a plain int, so
 that interactive charts can send it

---
 logic/model_reporters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 455e3f9..35a8836 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -159,7 +159,7 @@ def get_nakamoto_coefficient(model):
     sorted_final_stake = sorted(final_stake, reverse=True)
     cumulative_final_stake = np.array([fsum(sorted_final_stake[:i + 1]) for i in range(len(sorted_final_stake))])
     majority_threshold = total_active_stake / 2
-    nc = np.argmax(cumulative_final_stake > majority_threshold) + 1
+    nc = int(np.argmax(cumulative_final_stake > majority_threshold)) + 1
     return nc
 
 
-- 
2.43.0


From 4563233e5b5dd19fb98f91cc680f60b7754da538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 19/29] fix: restore the line endings of reward_schemes.py

---
 logic/reward_schemes.py | 252 ++++++++++++++++++++--------------------
 1 file changed, 126 insertions(+), 126 deletions(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index 0176364..af03c59 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -1,126 +1,126 @@
-TOTAL_EPOCH_REWARDS_R = 1
-
-
-class RSS:
-    """
-    Base class for the Reward Sharing Scheme that is used in the simulation.
-    Determines the rewards that a pool receives.
-    Note that this class cannot be used on its own, only its child-classes can be used, which must implement the
-    'calculate_pool_reward' method
-    """
-
-    def __init__(self, k, a0):
-        self.k = k
-        self.a0 = a0 
-
-    @property
-    def k(self):
-        return self._k
-
-    @k.setter
-    def k(self, k_value):
-        if k_value == 0:
-            raise ValueError('k parameter of reward scheme cannot be 0')
-        # k may be inflated to a value like 9.999999999999998, which stands for 10 and shouldn't be truncated to 9
-        self._k = int(round(k_value, 9))
-        # whenever k changes, the global saturation threshold also changes
-        self.global_saturation_threshold = TOTAL_EPOCH_REWARDS_R / k_value
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        raise NotImplementedError("RSS subclass must implement 'calculate_pool_reward' method.")
-
-    def get_pool_saturation_threshold(self, pool_pledge):
-        """
-        By default, the saturation point of all pools is given by the global_saturation_threshold. However, some
-        reward schemes may choose to have different saturation thresholds for different pools, depending on
-        their pledge for example. In these cases, this method would have to be overridden.
-        @param pool_pledge: the pledge of the relevant pool
-        @return: the saturation threshold of a pool with the given pledge
-        """
-        return self.global_saturation_threshold
-
-
-class CardanoRSS(RSS):
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pledge_ = min(pool_pledge, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
-            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
-                                            / self.global_saturation_threshold)))
-        return r
-
-
-class SimplifiedRSS(RSS):
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pledge_ = min(pool_pledge, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * stake_ * \
-            (1 + (self.a0 * pledge_ / self.global_saturation_threshold))
-        return r
-
-
-class FlatPledgeBenefitRSS(RSS):
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pledge_ = min(pool_pledge, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * (stake_ + self.a0 * pledge_)
-        return r
-
-
-class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
-        super().__init__(k=k, a0=a0)
-        self.crossover_factor = crossover_factor
-        self.curve_root = curve_root
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        crossover = self.global_saturation_threshold / self.crossover_factor
-        pledge_factor = (pool_pledge ** (1 / self.curve_root)) * (
-                    crossover ** ((self.curve_root - 1) / self.curve_root))
-        pledge_ = min(pledge_factor, self.global_saturation_threshold)
-        stake_ = min(pool_stake, self.global_saturation_threshold)
-        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
-            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
-                                            / self.global_saturation_threshold)))
-        return r
-
-
-class CIP50RSS(RSS):
-    """
-    Reward scheme equivalent to that of CIP-50.
-    Note that even though it's possible to use this reward scheme in the simulation, it might not give accurate results
-    because our methodology was based on nuances of the original reward scheme that are not present in this one
-    (e.g. the expectation of ending up with k pools). There is a separate branch for this reward scheme that uses a
-    slightly different logic, which we believe is more compatible - please refer to that one for extensive
-    experimentation concerning CIP-50.
-    """
-
-    def __init__(self, k, a0):
-        super().__init__(k=k, a0=a0)
-
-    def calculate_pool_reward(self, pool_pledge, pool_stake):
-        pool_saturation_threshold = self.get_pool_saturation_threshold(pool_pledge)
-        r = TOTAL_EPOCH_REWARDS_R * min(pool_stake, pool_saturation_threshold)
-        return r
-
-    def get_pool_saturation_threshold(self, pool_pledge):
-        custom_saturation_threshold = self.a0 * pool_pledge
-        return min(custom_saturation_threshold, self.global_saturation_threshold)
-
-
-RSS_MAPPING = {
-    0: CardanoRSS,
-    1: SimplifiedRSS,
-    2: FlatPledgeBenefitRSS,
-    3: CurvePledgeBenefitRSS,
-    4: CIP50RSS
-}
+TOTAL_EPOCH_REWARDS_R = 1
+
+
+class RSS:
+    """
+    Base class for the Reward Sharing Scheme that is used in the simulation.
+    Determines the rewards that a pool receives.
+    Note that this class cannot be used on its own, only its child-classes can be used, which must implement the
+    'calculate_pool_reward' method
+    """
+
+    def __init__(self, k, a0):
+        self.k = k
+        self.a0 = a0 
+
+    @property
+    def k(self):
+        return self._k
+
+    @k.setter
+    def k(self, k_value):
+        if k_value == 0:
+            raise ValueError('k parameter of reward scheme cannot be 0')
+        # k may be inflated to a value like 9.999999999999998, which stands for 10 and shouldn't be truncated to 9
+        self._k = int(round(k_value, 9))
+        # whenever k changes, the global saturation threshold also changes
+        self.global_saturation_threshold = TOTAL_EPOCH_REWARDS_R / k_value
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        raise NotImplementedError("RSS subclass must implement 'calculate_pool_reward' method.")
+
+    def get_pool_saturation_threshold(self, pool_pledge):
+        """
+        By default, the saturation point of all pools is given by the global_saturation_threshold. However, some
+        reward schemes may choose to have different saturation thresholds for different pools, depending on
+        their pledge for example. In these cases, this method would have to be overridden.
+        @param pool_pledge: the pledge of the relevant pool
+        @return: the saturation threshold of a pool with the given pledge
+        """
+        return self.global_saturation_threshold
+
+
+class CardanoRSS(RSS):
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pledge_ = min(pool_pledge, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
+            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
+                                            / self.global_saturation_threshold)))
+        return r
+
+
+class SimplifiedRSS(RSS):
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pledge_ = min(pool_pledge, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * stake_ * \
+            (1 + (self.a0 * pledge_ / self.global_saturation_threshold))
+        return r
+
+
+class FlatPledgeBenefitRSS(RSS):
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pledge_ = min(pool_pledge, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * (stake_ + self.a0 * pledge_)
+        return r
+
+
+class CurvePledgeBenefitRSS(RSS):  # CIP-7
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
+        super().__init__(k=k, a0=a0)
+        self.crossover_factor = crossover_factor
+        self.curve_root = curve_root
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        crossover = self.global_saturation_threshold / self.crossover_factor
+        pledge_factor = (pool_pledge ** (1 / self.curve_root)) * (
+                    crossover ** ((self.curve_root - 1) / self.curve_root))
+        pledge_ = min(pledge_factor, self.global_saturation_threshold)
+        stake_ = min(pool_stake, self.global_saturation_threshold)
+        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \
+            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
+                                            / self.global_saturation_threshold)))
+        return r
+
+
+class CIP50RSS(RSS):
+    """
+    Reward scheme equivalent to that of CIP-50.
+    Note that even though it's possible to use this reward scheme in the simulation, it might not give accurate results
+    because our methodology was based on nuances of the original reward scheme that are not present in this one
+    (e.g. the expectation of ending up with k pools). There is a separate branch for this reward scheme that uses a
+    slightly different logic, which we believe is more compatible - please refer to that one for extensive
+    experimentation concerning CIP-50.
+    """
+
+    def __init__(self, k, a0):
+        super().__init__(k=k, a0=a0)
+
+    def calculate_pool_reward(self, pool_pledge, pool_stake):
+        pool_saturation_threshold = self.get_pool_saturation_threshold(pool_pledge)
+        r = TOTAL_EPOCH_REWARDS_R * min(pool_stake, pool_saturation_threshold)
+        return r
+
+    def get_pool_saturation_threshold(self, pool_pledge):
+        custom_saturation_threshold = self.a0 * pool_pledge
+        return min(custom_saturation_threshold, self.global_saturation_threshold)
+
+
+RSS_MAPPING = {
+    0: CardanoRSS,
+    1: SimplifiedRSS,
+    2: FlatPledgeBenefitRSS,
+    3: CurvePledgeBenefitRSS,
+    4: CIP50RSS
+}
-- 
2.43.0


From bcd93465cebb303550e3c9cfced0efb9cf6d4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 20/29] fix: read all comma-separated values of a stake
 distribution file

---
 logic/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 72c06ef..da30cbc 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -32,13 +32,13 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
         with open(filename) as file:
             reader = csv.reader(file)
             for row in reader:
-                stk_dstr.append(float(row[0]))
+                stk_dstr.extend(float(value) for value in row if value.strip())
     except FileNotFoundError:
         try:
             with open(default_filename) as file:
                 reader = csv.reader(file)
                 for row in reader:
-                    stk_dstr.append(float(row[0]))
+                    stk_dstr.extend(float(value) for value in row if value.strip())
         except FileNotFoundError:
             print("Couldn't find file to read stake distribution from. Please make sure that the file exists or "
                   "use another option for the stake distribution source.")
-- 
2.43.0


From 835bc5d4ede0666378308e3fd03b51bac8655542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 21/29] fix: accept the reward scheme of CIP-50 in batch runs,
 as documented

---
 batch-run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index 7420c83..ca3952e 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -44,7 +44,7 @@ if __name__ == "__main__":
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
                         help='The distribution type to use for the initial allocation of stake to the agents.')
-    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(4),
+    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(5),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-- 
2.43.0


From a81f071a7cb15070168db718ae12604d352c49b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 22/29] fix: use the agent profile distribution given to a
 batch run

---
 batch-run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batch-run.py b/batch-run.py
index ca3952e..9871ea3 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -1,5 +1,6 @@
 import argparse
 import random
+from functools import partial
 import pandas as pd
 
 from custom_batchrunner import custom_batch_run
@@ -71,7 +72,8 @@ if __name__ == "__main__":
     if seed is None:
         seed = random.randint(0, 9999999)
 
-    args_dict.pop("agent_profile_distr") #todo deal with this instead of popping
+    # the weights make up one value together, so they are not among the parameters whose values get combined
+    model_cls = partial(sim.Simulation, agent_profile_distr=args_dict.pop("agent_profile_distr"))
 
     params = {}
     variable_params = {}
@@ -85,7 +87,7 @@ if __name__ == "__main__":
 
     start_time = time.time()
     results, batch_run_directory = custom_batch_run(
-        sim.Simulation,
+        model_cls,
         parameters=params,
         iterations=1, #todo maybe add as command-line option
         max_steps=params['max_iterations'],
-- 
2.43.0


From d4de599b4c4dd3c912bc0b2246124a5b94572cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 23/29] fix: let executions with the same identifier that start
 at the same time use separate folders

---
 custom_batchrunner.py |  5 +----
 logic/helper.py       | 18 ++++++++++++++++++
 logic/sim.py          | 19 +++++++++----------
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4bb3f75..139fb27 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -57,11 +57,8 @@ def custom_batch_run(
         [description]
     """
 
-    seq_id = hlp.read_seq_id() + 1
-    hlp.write_seq_id(seq_id)
+    seq_id, path = hlp.create_numbered_directory(pathlib.Path.cwd() / "output", batch_run_id)
     batch_run_id = str(seq_id) + '-' + batch_run_id
-    path = pathlib.Path.cwd() / "output" / batch_run_id
-    pathlib.Path(path).mkdir(parents=True)
 
     parameters.update({'parent_dir': path})
     kwargs_list, fixed_params = _make_model_kwargs(parameters)
diff --git a/logic/helper.py b/logic/helper.py
index da30cbc..70949c5 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -359,6 +359,24 @@ def write_seq_id(seq, filename='sequence.dat'):
     os.replace(temp_filename, filename)
 
 
+def create_numbered_directory(parent_path, name):
+    """
+    Create the directory of a new (batch) execution, prefixing its name with the next number of the sequence
+    :return: the number that was used and the path of the directory
+    """
+    while True:
+        seq_id = read_seq_id() + 1
+        write_seq_id(seq_id)
+        path = parent_path / (str(seq_id) + '-' + name)
+        try:
+            path.mkdir(parents=True)
+            return seq_id, path
+        except FileExistsError:
+            # another execution with the same name got the same number (e.g. because it was started at the same time),
+            # so move on to the next one
+            continue
+
+
 def write_to_csv(filepath, header, row):
     # the same file may be written by many processes (e.g. in batch runs), so create it along with its header in one step
     if not os.path.exists(filepath):
diff --git a/logic/sim.py b/logic/sim.py
index 32abcd6..8f8b267 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -49,21 +49,20 @@ class Simulation(Model):
         # specific to this execution and follows the seed that gets reported in the output
         self.random = random.Random(seed)
 
-        seq_id = args['seq_id']
-        if seq_id == -1:
-            seq_id = hlp.read_seq_id() + 1
-            hlp.write_seq_id(seq_id)
-        self.seq_id = seq_id
-
         execution_id = args['execution_id']
         if execution_id == '' or execution_id == 'temp':
             # No identifier was provided by the user, so we construct one based on the simulation's parameter values
             execution_id = hlp.generate_execution_id(args)
-        execution_id = str(seq_id) + '-' + execution_id
-        self.execution_id = execution_id
 
-        path = pathlib.Path.cwd() / "output" / args['parent_dir'] / self.execution_id
-        pathlib.Path(path).mkdir(parents=True)
+        parent_path = pathlib.Path.cwd() / "output" / args['parent_dir']
+        seq_id = args['seq_id']
+        if seq_id == -1:
+            seq_id, path = hlp.create_numbered_directory(parent_path, execution_id)
+        else:
+            path = parent_path / (str(seq_id) + '-' + execution_id)
+            pathlib.Path(path).mkdir(parents=True)
+        self.seq_id = seq_id
+        self.execution_id = str(seq_id) + '-' + execution_id
         self.directory = path
         self.export_args_file(args)
 
-- 
2.43.0


From f80b4466b43d7271d2757c6f33c09c6abcae6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 24/29] fix: finish executions whose last phase lowers the
 maximum number of iterations below the current step

---
 logic/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 8f8b267..64dac09 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -247,7 +247,7 @@ class Simulation(Model):
         """
         self.start_time = time.time()
         self.initialize_pool_id_seq()  # initialize pool id sequence for the new model run
-        while self.schedule.steps <= self.max_iterations and self.running:
+        while self.running:  # ends when wrapped up, also if a new phase lowers max_iterations below the current step
             self.step()
 
     def has_converged(self):
-- 
2.43.0


From f51e92efa776bd8655de20a059535d2f7c416af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 25/29] fix: charts of the interactive mode need no jQuery,
 which the page of Mesa 1.0.0 does not load

---
 interactiveViz/bubbleChartModule.js  | 7 +++----
 interactiveViz/myChartModule.js      | 7 +++----
 interactiveViz/stackedChartModule.js | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/interactiveViz/bubbleChartModule.js b/interactiveViz/bubbleChartModule.js
index 520004b..969d6bd 100644
--- a/interactiveViz/bubbleChartModule.js
+++ b/interactiveViz/bubbleChartModule.js
@@ -1,10 +1,9 @@
 var BubbleChartModule  = function(series, canvas_width, canvas_height) {
     // Create the tag:
-    var canvas_tag = "<canvas width='" + canvas_width + "' height='" + canvas_height + "' ";
-    canvas_tag += "style='border:1px dotted'></canvas>";
+    var canvas = document.createElement("canvas");
+    Object.assign(canvas, {width: canvas_width, height: canvas_height, style: "border:1px dotted"});
     // Append it to #elements
-    var canvas = $(canvas_tag)[0];
-    $("#elements").append(canvas);
+    document.getElementById("elements").appendChild(canvas);
     // Create the context and the drawing controller:
     var context = canvas.getContext("2d");
 
diff --git a/interactiveViz/myChartModule.js b/interactiveViz/myChartModule.js
index df89761..3a84b90 100644
--- a/interactiveViz/myChartModule.js
+++ b/interactiveViz/myChartModule.js
@@ -4,11 +4,10 @@
 
 var MyChartModule = function(series, canvas_width, canvas_height) {
     // Create the tag:
-    var canvas_tag = "<canvas width='" + canvas_width + "' height='" + canvas_height + "' ";
-    canvas_tag += "style='border:1px dotted'></canvas>";
+    var canvas = document.createElement("canvas");
+    Object.assign(canvas, {width: canvas_width, height: canvas_height, style: "border:1px dotted"});
     // Append it to #elements
-    var canvas = $(canvas_tag)[0];
-    $("#elements").append(canvas);
+    document.getElementById("elements").appendChild(canvas);
     // Create the context and the drawing controller:
     var context = canvas.getContext("2d");
 
diff --git a/interactiveViz/stackedChartModule.js b/interactiveViz/stackedChartModule.js
index 80e3f85..aa0dcc1 100644
--- a/interactiveViz/stackedChartModule.js
+++ b/interactiveViz/stackedChartModule.js
@@ -1,10 +1,9 @@
 var StackedChartModule = function(series, canvas_width, canvas_height) {
     // Create the tag:
-    var canvas_tag = "<canvas width='" + canvas_width + "' height='" + canvas_height + "' ";
-    canvas_tag += "style='border:1px dotted'></canvas>";
+    var canvas = document.createElement("canvas");
+    Object.assign(canvas, {width: canvas_width, height: canvas_height, style: "border:1px dotted"});
     // Append it to #elements
-    var canvas = $(canvas_tag)[0];
-    $("#elements").append(canvas);
+    document.getElementById("elements").appendChild(canvas);
     // Create the context and the drawing controller:
     var context = canvas.getContext("2d");
 
-- 
2.43.0


From 0ac52145716ea147b0682511a44c2b4ce0bd6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 26/29] fix: the interactive mode records all metrics that its
 charts show

---
 interactiveViz/runViz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 56d6056..93359df 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -53,7 +53,8 @@ model_params = {
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
         "slider", "Cost factor", 0.4, 0.0, 1, 0.01
-    )
+    ),
+    "metrics": [1, 21, 27]  # those that the charts show
 }
 
 # todo add option for different distributions
-- 
2.43.0


From 6ed2deb249a235bb69cc7687fd72378aed6194c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:49 +0000
Subject: [PATCH 27/29] fix: remove the temporary directory of the solver

---
 logic/model_reporters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 35a8836..0b6b882 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -195,6 +195,8 @@ def get_min_aggregate_pledge(model):
     except Exception as e:  # todo catch specific errors
         print("Min aggregate pledge not found")
         return -2
+    finally:
+        g.cleanup()  # the solver works in a temporary directory
 
     min_aggr_pledge = g.options.objfcnval
     return min_aggr_pledge
-- 
2.43.0


From 3c96d1a6644510583a9370d0cbd6e17757d2d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:49 +0000
Subject: [PATCH 28/29] fix: record the min-aggregate pledge as not found if
 the solver gets no temporary directory

---
 logic/model_reporters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 0b6b882..0fdc8b7 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -179,7 +179,11 @@ def get_min_aggregate_pledge(model):
     items = len(ids)
 
     # Create model
-    g = GEKKO()
+    try:
+        g = GEKKO()
+    except OSError:  # the solver needs a temporary directory
+        print("Min aggregate pledge not found")
+        return -2
     # Variables
     x = g.Array(g.Var, items, lb=0, ub=1, integer=True)
     # Objective
-- 
2.43.0


From bb3dd022683d1e5dc8091b67958277535f1a0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:22 +0000
Subject: [PATCH 29/29] fix: run_model() of a simulation that already has pools
 gave the ids of open pools out again

---
 logic/sim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 64dac09..bec7766 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -246,7 +246,6 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        self.initialize_pool_id_seq()  # initialize pool id sequence for the new model run
         while self.running:  # ends when wrapped up, also if a new phase lowers max_iterations below the current step
             self.step()
 
-- 
2.43.0


From 7244d3de00f4265c93f21d1de0feae076727c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 01/26] fix: weight startup costs in aggregated timesteps like
 all other costs

---
 src/oemof/solph/flows/_shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 6713750..f6085f2 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -569,6 +569,7 @@ def startup_costs(block):
                 startup_costs += sum(
                     block.startup[i, o, t]
                     * m.flows[i, o].nonconvex.startup_costs[t]
+                    * m.tsam_weighting[t]
                     for t in m.TIMESTEPS
                 )
 
-- 
2.43.0


From 5bca7f844e50e2ab7888ad2e4d7cfaa6d0f16794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 02/26] fix: weight aggregated timesteps in full load time of
 investment flows

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 51f5ef9..09fa3e9 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -677,7 +677,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) <= (
                 m.flows[i, o].full_load_time_max
                 * sum(self.total[i, o, p] for p in m.PERIODS)
@@ -694,7 +695,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) >= (
                 sum(self.total[i, o, p] for p in m.PERIODS)
                 * m.flows[i, o].full_load_time_min
-- 
2.43.0


From 231337d1c19662fc187fe8d5e17c09c9745d571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 03/26] fix: apply flue gas minimum of GenericCHP given as
 custom property

---
 src/oemof/solph/components/_generic_chp.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 572b200..7bc9bca 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -492,8 +492,11 @@ class GenericCHPBlock(ScalarBlock):
         def _H_L_FG_min_rule(block, n, t):
             """Set min. flue gas loss as fuel flow share."""
             # minimum flue gas losses e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += -self.H_L_FG_min[n, t]
@@ -514,13 +517,19 @@ class GenericCHPBlock(ScalarBlock):
         def _Q_min_res_rule(block, n, t):
             """Set minimum Q depending on fuel and eletrical flow."""
             # minimum restriction for heat flows e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += self.P[n, t] + self.Q[n, t] + self.H_L_FG_min[n, t]
                 expr += (
-                    list(n.heat_output.values())[0].Q_CW_min[t] * self.Y[n, t]
+                    list(n.heat_output.values())[0].custom_properties[
+                        "Q_CW_min"
+                    ][t]
+                    * self.Y[n, t]
                 )
                 expr += -self.H_F[n, t]
                 return expr >= 0
-- 
2.43.0


From 2bc7a5b8a818e61a246b1bc46d47a19eee581d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 04/26] fix: limit the initial content of invested storages in
 aggregated models

---
 src/oemof/solph/components/_generic_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index fa9b6f1..f9977dd 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1817,7 +1817,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs <= n.investment.existing + block.invest[n, 0]
 
             self.init_content_limit = Constraint(
@@ -1830,7 +1830,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs == n.initial_storage_level * (
                     n.investment.existing + block.invest[n, 0]
                 )
-- 
2.43.0


From 5c20cbf1e85152ab9dcd1bd37dd12385cae1aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 05/26] fix: use the losses of all intervals in the storage
 balance between clusters

---
 .../solph/components/_generic_storage.py      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index f9977dd..9035026 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -801,12 +801,7 @@ class GenericStorageBlock(ScalarBlock):
             # Calculate inter losses over whole typical period
             t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
             losses = math.prod(
-                (
-                    (1 - n.loss_rate[t0 + s])
-                    ** m.es.tsa_parameters[p]["segments"][(k, s)]
-                    if "segments" in m.es.tsa_parameters[p]
-                    else 1 - n.loss_rate[t0 + s]
-                )
+                (1 - n.loss_rate[t0 + s]) ** m.timeincrement[t0 + s]
                 for s in range(m.es.tsa_parameters[p]["timesteps"])
             )
 
@@ -1918,14 +1913,17 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     break
 
             k = m.es.tsa_parameters[p]["order"][ii]
-            t = m.get_timestep_from_tsam_timestep(
-                p, k, m.es.tsa_parameters[p]["timesteps"] - 1
+
+            # Calculate inter losses over whole typical period
+            t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
+            losses = math.prod(
+                (1 - n.loss_rate[t0 + s]) ** m.timeincrement[t0 + s]
+                for s in range(m.es.tsa_parameters[p]["timesteps"])
             )
+
             expr = 0
             expr += block.inter_storage_content[n, i + 1]
-            expr += -block.inter_storage_content[n, i] * (
-                1 - n.loss_rate[t]
-            ) ** (m.timeincrement[t] * m.es.tsa_parameters[p]["timesteps"])
+            expr += -block.inter_storage_content[n, i] * losses
             expr += -self.intra_storage_delta[
                 n, p, k, m.es.tsa_parameters[p]["timesteps"]
             ]
-- 
2.43.0


From b4a54f7f22d56d4c34cdfe38320984803399610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 06/26] fix: use representative timesteps in storage level
 limits of aggregated models

---
 .../solph/components/_generic_storage.py      | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 9035026..b7911a0 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -652,10 +652,9 @@ class GenericStorageBlock(ScalarBlock):
             # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
-                    lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                    t = m.get_timestep_from_tsam_timestep(p, k, g)
+                    lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -665,7 +664,10 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     rhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * math.prod(
+                            (1 - n.loss_rate[s]) ** m.timeincrement[s]
+                            for s in range(t - g, t)
+                        )
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     self.storage_inter_minimum_level.add(
@@ -684,9 +686,8 @@ class GenericStorageBlock(ScalarBlock):
         def _storage_inter_maximum_level_rule(block):
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                    t = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -696,7 +697,10 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     lhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * math.prod(
+                            (1 - n.loss_rate[s]) ** m.timeincrement[s]
+                            for s in range(t - g, t)
+                        )
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     rhs = n.nominal_storage_capacity * n.max_storage_level[t]
@@ -2166,9 +2170,8 @@ class GenericInvestmentStorageBlock(ScalarBlock):
             def _storage_inter_maximum_level_rule(block):
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2178,7 +2181,10 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         lhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * math.prod(
+                                (1 - n.loss_rate[s]) ** m.timeincrement[s]
+                                for s in range(t - g, t)
+                            )
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         rhs = self.total[n, p] * n.max_storage_level[t]
@@ -2200,10 +2206,9 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
-                        lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
+                        lhs = self.total[n, p] * n.min_storage_level[t]
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2213,7 +2218,10 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         rhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * math.prod(
+                                (1 - n.loss_rate[s]) ** m.timeincrement[s]
+                                for s in range(t - g, t)
+                            )
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         self.storage_inter_minimum_level.add(
-- 
2.43.0


From 00efce310e3165376a69c5fa07f3c7ce48ee3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 07/26] fix: GenericCAES exchanges energy with the cavern only
 while running, as documented

---
 src/oemof/solph/components/experimental/_generic_caes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_generic_caes.py b/src/oemof/solph/components/experimental/_generic_caes.py
index 384ca90..6693b4a 100644
--- a/src/oemof/solph/components/experimental/_generic_caes.py
+++ b/src/oemof/solph/components/experimental/_generic_caes.py
@@ -645,7 +645,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_in[n, t]
                 == n.params["cav_e_in_m"] * self.cmp_p[n, t]
-                + n.params["cav_e_in_b"]
+                + n.params["cav_e_in_b"] * self.cmp_st[n, t]
             )
 
         self.cav_e_in_constr = Constraint(
@@ -657,7 +657,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_out[n, t]
                 == n.params["cav_e_out_m"] * self.exp_p[n, t]
-                + n.params["cav_e_out_b"]
+                + n.params["cav_e_out_b"] * self.exp_st[n, t]
             )
 
         self.cav_e_out_constr = Constraint(
-- 
2.43.0


From bde66fa37f27a474a094ae4d8511cfc05f497b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 08/26] fix: bounds of PiecewiseLinearConverter output for
 non-increasing conversion functions

---
 .../experimental/_piecewise_linear_converter.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index fad3b91..c54e94b 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -164,16 +164,16 @@ class PiecewiseLinearConverterBlock(ScalarBlock):
             expr = n.conversion_function(x)
             return expr
 
-        # bounds are min/max of breakpoints
+        # bounds are min/max of breakpoints and of the output at these
         lower_bound_in = {n: min(n.in_breakpoints) for n in group}
         upper_bound_in = {n: max(n.in_breakpoints) for n in group}
         lower_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in lower_bound_in.items()
+            n: min(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
         upper_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in upper_bound_in.items()
+            n: max(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
 
         def get_inflow_bounds(model, n, t):
-- 
2.43.0


From 414fa9c6119cdba406c9ab506421c132a3e60aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 09/26] fix: investment limits with storages only or with
 investment of on/off flows

---
 src/oemof/solph/constraints/investment_limit.py    | 14 ++++++++++----
 .../solph/flows/_invest_non_convex_flow_block.py   | 10 ++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index bbf5e83..49b22fd 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -35,8 +35,12 @@ def investment_limit(model, limit=None):
     def investment_rule(m):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
-            expr += m.InvestmentFlowBlock.investment_costs
+        # The blocks for flows are always present. They have costs only
+        # if there are flows of the respective type.
+        for flow_block in ("InvestmentFlowBlock", "InvestNonConvexFlowBlock"):
+            block = getattr(m, flow_block, None)
+            if hasattr(block, "investment_costs"):
+                expr += block.investment_costs
 
         if hasattr(m, "GenericInvestmentStorageBlock"):
             expr += m.GenericInvestmentStorageBlock.investment_costs
@@ -96,8 +100,10 @@ def investment_limit_per_period(model, limit=None):
     def investment_period_rule(m, p):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
-            expr += m.InvestmentFlowBlock.period_investment_costs[p]
+        for flow_block in ("InvestmentFlowBlock", "InvestNonConvexFlowBlock"):
+            block = getattr(m, flow_block, None)
+            if hasattr(block, "period_investment_costs"):
+                expr += block.period_investment_costs[p]
 
         if hasattr(m, "GenericInvestmentStorageBlock"):
             expr += m.GenericInvestmentStorageBlock.period_investment_costs[p]
diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 9d04efb..8f49093 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -311,22 +311,28 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         activity_costs = _shared.activity_costs(self)
         inactivity_costs = _shared.inactivity_costs(self)
         investment_costs = 0
+        period_investment_costs = {p: 0 for p in m.PERIODS}
 
         for i, o in self.LINEAR_INVEST_NON_CONVEX_FLOWS:
             for p in m.PERIODS:
-                investment_costs += (
+                investment_costs_increment = (
                     self.invest[i, o, p] * m.flows[i, o].investment.ep_costs[p]
                 )
+                investment_costs += investment_costs_increment
+                period_investment_costs[p] += investment_costs_increment
 
         for i, o in self.OFFSET_INVEST_NON_CONVEX_FLOWS:
             for p in m.PERIODS:
-                investment_costs += (
+                investment_costs_increment = (
                     self.invest[i, o, p] * m.flows[i, o].investment.ep_costs[p]
                     + m.flows[i, o].investment.offset[p]
                     * self.invest_status[i, o, p]
                 )
+                investment_costs += investment_costs_increment
+                period_investment_costs[p] += investment_costs_increment
 
         self.investment_costs = Expression(expr=investment_costs)
+        self.period_investment_costs = period_investment_costs
 
         return (
             startup_costs
-- 
2.43.0


From 76b1f09db77a222b0a2ec92b7990d132ab05f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 10/26] fix: storage level constraint in aggregated models

---
 src/oemof/solph/constraints/storage_level.py | 52 ++++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index 5feba7f..1c8b891 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -7,6 +7,8 @@ SPDX-FileCopyrightText: Deutsches Zentrum für Luft- und Raumfahrt (DLR)
 SPDX-License-Identifier: MIT
 """
 
+import math
+
 from pyomo import environ as po
 
 
@@ -105,6 +107,26 @@ def storage_level_constraint(
             ),
         )
 
+    def _content_tsam(m, p, i, g):
+        """Content after `g` intervals of the `i`-th cluster of period `p`"""
+        k = m.es.tsa_parameters[p]["order"][i]
+        t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
+        inter_i = i + sum(
+            len(m.es.tsa_parameters[ip]["order"]) for ip in range(p)
+        )
+        return (
+            m.GenericStorageBlock.intra_storage_delta[
+                storage_component, p, k, g
+            ]
+            + m.GenericStorageBlock.inter_storage_content[
+                storage_component, inter_i
+            ]
+            * math.prod(
+                (1 - storage_component.loss_rate[t]) ** m.timeincrement[t]
+                for t in range(t0, t0 + g)
+            )
+        )
+
     def _outputs_tsam():
         OUTPUTS = po.Set(initialize=output_levels.keys())
         setattr(model, f"{name}_OUTPUTS", OUTPUTS)
@@ -126,21 +148,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for o in output_levels:
                     getattr(m, constraint_name).add(
                         (o, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content_tsam(m, p, i, g + 1)
                         / storage_component.nominal_storage_capacity
                         >= active_output[o, p, k, g] * output_levels[o],
                     )
@@ -164,7 +175,7 @@ def storage_level_constraint(
         def _constraint_output_rule(m, o, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[multiplexer_bus, o, p, t]
+                m.flow[multiplexer_bus, o, t]
                 / m.flows[multiplexer_bus, o].nominal_capacity
                 <= active_output[o, p, k, g]
             )
@@ -268,21 +279,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for inp in input_levels:
                     getattr(m, constraint_name).add(
                         (inp, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content_tsam(m, p, i, g)
                         / storage_component.nominal_storage_capacity
                         - input_levels[inp]
                         <= inactive_input[inp, p, k, g],
@@ -307,7 +307,7 @@ def storage_level_constraint(
         def _constraint_input_rule(m, i, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[i, multiplexer_bus, p, t]
+                m.flow[i, multiplexer_bus, t]
                 / m.flows[i, multiplexer_bus].nominal_capacity
                 <= 1 - inactive_input[i, p, k, g]
             )
-- 
2.43.0


From a3550160be309fd8e94d7e105da4c9c4b6306839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 11/26] fix: keep periodical limits of several keywords

---
 src/oemof/solph/constraints/integral_limit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 679e17a..62e86d4 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -258,10 +258,10 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
         return expr <= limit[p]
 
-    om.periodical_integral_limit = po.Constraint(
-        om.PERIODS,
-        rule=_periodical_integral_limit_rule,
-        name=limit_name + "_constraint",
+    setattr(
+        om,
+        limit_name + "_constraint",
+        po.Constraint(om.PERIODS, rule=_periodical_integral_limit_rule),
     )
 
     return om
-- 
2.43.0


From 16e7ecb66b07104c8fab17bd6930ea24f442d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 12/26] fix: count represented timesteps in integral limits of
 aggregated models

---
 src/oemof/solph/constraints/integral_limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 62e86d4..b28effc 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -165,6 +165,7 @@ def generic_integral_limit(
             expr=sum(
                 om.flow[i, o, t]
                 * om.timeincrement[t]
+                * om.tsam_weighting[t]
                 * sequence(flows[i, o].custom_properties[keyword])[t]
                 for (i, o) in flows
                 for t in om.TIMESTEPS
@@ -251,6 +252,7 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
         expr = sum(
             om.flow[i, o, t]
             * om.timeincrement[t]
+            * om.tsam_weighting[t]
             * sequence(flows[i, o].custom_properties[keyword])[t]
             for (i, o) in flows
             for t in m.TIMESTEPS_IN_PERIOD[p]
-- 
2.43.0


From 9a0a3a2613cfc4fc60587bceb2153dda1bb02c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 13/26] fix: position of aggregated timesteps in periods of
 different length

---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 093eaeb..15bf07a 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -516,7 +516,7 @@ class Model(po.ConcreteModel):
     def get_timestep_from_tsam_timestep(self, p, ik, g):
         """Return original timestep from cluster-based timestep"""
         t = (
-            p * len(self.TIMESTEPS_IN_PERIOD[p])
+            self.TIMESTEPS_IN_PERIOD[p][0]
             + ik * self.es.tsa_parameters[p]["timesteps"]
             + g
         )
-- 
2.43.0


From b67200592ee6808893c53a7a16eb8b3dc7d62b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 14/26] fix: additional investment limit for on/off flows

---
 src/oemof/solph/constraints/investment_limit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index 49b22fd..04aa963 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -216,12 +216,17 @@ def additional_investment_flow_limit(model, keyword, limit=None):
 
     limit_name = "invest_limit_" + keyword
 
+    def invest_block(i, o):
+        if model.flows[i, o].nonconvex is None:
+            return model.InvestmentFlowBlock
+        return model.InvestNonConvexFlowBlock
+
     setattr(
         model,
         limit_name,
         po.Expression(
             expr=sum(
-                model.InvestmentFlowBlock.invest[i, o, p]
+                invest_block(i, o).invest[i, o, p]
                 * investments[i, o].custom_properties[keyword]
                 for (i, o) in investments
                 for p in model.PERIODS
-- 
2.43.0


From 03c02e82c2473809b81653d140a8db4414e59fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 15/26] fix: compare lengths of sequences by value

---
 src/oemof/solph/_plumbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 4459b31..c5416c3 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -60,7 +60,7 @@ def sequence(iterable_or_scalar, length=None):
     if iterable_or_scalar is None:
         return None
     if isinstance(iterable_or_scalar, abc.Iterable):
-        if length and length is not len(iterable_or_scalar):
+        if length and length != len(iterable_or_scalar):
             raise ValueError(
                 f"Length mismatch: Cannot create sequence of length {length}"
                 + " from input {iterable_or_scalar}."
-- 
2.43.0


From 6db09dba43be88fe3ca3f5638e5400b053e26446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 16/26] fix: additional investment limit with investments
 without custom properties

---
 src/oemof/solph/_options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index aebd550..f66b64b 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -119,6 +119,8 @@ class Investment:
 
             custom_properties = custom_attributes
         # --- END ---
+        if custom_properties is None:
+            custom_properties = {}
         self.custom_properties = custom_properties
         self.maximum = sequence(maximum)
         self.minimum = sequence(minimum)
-- 
2.43.0


From 430723f4dbdd82ba4061cf13f248ff3fc9010fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 17/26] fix: check all values of flow limits that need a
 nominal capacity

---
 src/oemof/solph/flows/_flow.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index a293666..bdfd8dc 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -326,18 +326,22 @@ class Flow(Edge):
         }
         if self.investment is None and self.nominal_capacity is None:
             for attr in need_nominal_capacity:
-                if isinstance(getattr(self, attr), Iterable):
-                    the_attr = getattr(self, attr)[0]
+                default = need_nominal_capacity_defaults[attr]
+                the_attr = getattr(self, attr)
+                if isinstance(the_attr, Iterable):
+                    is_set = (
+                        the_attr.min() != default or the_attr.max() != default
+                    )
                 else:
-                    the_attr = getattr(self, attr)
-                if the_attr != need_nominal_capacity_defaults[attr]:
+                    is_set = the_attr != default
+                if is_set:
                     raise AttributeError(
                         f"If {attr} is set in a flow, "
                         "nominal_capacity must be set as well."
                     )
 
         if self.nominal_capacity is not None and not math.isfinite(
-            self.maximum[0]
+            self.maximum.max()
         ):
             raise ValueError(infinite_error_msg.format("maximum"))
 
-- 
2.43.0


From 562a23807ce7e4ea561086225a2be256acb0eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 18/26] fix: derive coefficients of OffsetConverter for all
 timesteps

The number of values was taken from the maximum of the output flow only, so
that with a constant maximum just the first value of the series given as
coefficients or minimum was used, for all timesteps.
---
 src/oemof/solph/components/_offset_converter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 4c161b6..52ea4ea 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -282,10 +282,14 @@ class OffsetConverter(Node):
 
         input_bus = list(self.inputs.values())[0].input
         for flow in self.outputs.values():
-            if flow.maximum.size is not None:
-                target_len = flow.maximum.size
-            else:
-                target_len = 1
+            target_len = min(
+                (
+                    s.size
+                    for s in (flow.maximum, flow.minimum, *coefficients)
+                    if s.size is not None
+                ),
+                default=1,
+            )
 
             slope = []
             offset = []
-- 
2.43.0


From d70f157ea217084ceb83bea2a7a32cb99433feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 19/26] fix: offset of OffsetConverter for maximum loads other
 than one

The line through both operating points did not pass through the one at
maximum load unless that load was the nominal one.
---
 .../solph/components/_offset_converter.py     | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 52ea4ea..3503474 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -63,7 +63,8 @@ class OffsetConverter(Node):
         m = \frac{l_\text{max}/\eta_\text{max}-l_\text{min}/\eta_\text{min}}
         {l_\text{max}-l_\text{min}}
 
-        y_\text{0,normed} = \frac{1}{\eta_{max}} - m
+        y_\text{0,normed} = l_\text{max}
+        \cdot \left(\frac{1}{\eta_\text{max}} - m\right)
 
     Where :math:`l_{max}` and :math:`l_{min}` are the maximum and minimum
     partload share (e.g. 1.0 and 0.5) with reference to the `NonConvex` flow
@@ -96,7 +97,7 @@ class OffsetConverter(Node):
     >>> eta_max = 0.5
     >>> eta_min = 0.3
     >>> slope = (l_max / eta_max - l_min / eta_min) / (l_max - l_min)
-    >>> offset = 1 / eta_max - slope
+    >>> offset = l_max * (1 / eta_max - slope)
 
     Or use the provided method as explained in the previous section:
 
@@ -123,13 +124,13 @@ class OffsetConverter(Node):
     The input required to operate at minimum load, can be computed from the
     slope and offset:
 
-    >>> input_at_min = ostf.conversion_factors[bel][0] * l_min + ostf.normed_offsets[bel][0] * l_max
+    >>> input_at_min = ostf.conversion_factors[bel][0] * l_min + ostf.normed_offsets[bel][0]
     >>> input_at_min * l_nominal
     100.0
 
     The same can be done for the input at nominal load:
 
-    >>> input_at_max = l_max * (ostf.conversion_factors[bel][0] + ostf.normed_offsets[bel][0])
+    >>> input_at_max = ostf.conversion_factors[bel][0] * l_max + ostf.normed_offsets[bel][0]
     >>> input_at_max * l_nominal
     120.0
 
@@ -531,7 +532,8 @@ def slope_offset_from_nonconvex_input(
             - \text{min} \cdot \eta_\text{at min}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \eta_\text{at,max} - \text{slope}
+        \text{offset} =
+        \text{max} \cdot \left(\eta_\text{at max} - \text{slope}\right)
 
     Parameters
     ----------
@@ -584,7 +586,7 @@ def slope_offset_from_nonconvex_input(
     slope = (max_load * eta_at_max - min_load * eta_at_min) / (
         max_load - min_load
     )
-    offset = eta_at_max - slope
+    offset = max_load * (eta_at_max - slope)
     return slope, offset
 
 
@@ -608,7 +610,9 @@ def slope_offset_from_nonconvex_output(
             - \frac{\text{min}}{\eta_\text{at min}}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \frac{1}{\eta_\text{at,max}} - \text{slope}
+        \text{offset} =
+        \text{max} \cdot
+        \left(\frac{1}{\eta_\text{at max}} - \text{slope}\right)
 
     Parameters
     ----------
@@ -661,5 +665,5 @@ def slope_offset_from_nonconvex_output(
     slope = (max_load / eta_at_max - min_load / eta_at_min) / (
         max_load - min_load
     )
-    offset = 1 / eta_at_max - slope
+    offset = max_load * (1 / eta_at_max - slope)
     return slope, offset
-- 
2.43.0


From aa8d24a6908a942743978dff39298f15e9aba618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 20/26] fix: losses of the typical period in disaggregated
 storage content

---
 src/oemof/solph/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index db1439c..7c4d89d 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -602,7 +602,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
             inter_value = soc["inter"].iloc[i_offset + i]["value"]
             # Self-discharge has to be taken into account for calculating
             # inter SOC for each timestep in cluster
-            t0 = t_offset + i * tsa_period["timesteps"]
+            t0 = t_offset + k * tsa_period["timesteps"]
             # Add last timesteps of simulation in order to interpolate SOC for
             # last segment correctly:
             is_last_timestep = (
@@ -657,7 +657,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
 
             soc_frames.append(soc_frame)
         i_offset += len(tsa_period["order"])
-        t_offset += i_offset * tsa_period["timesteps"]
+        t_offset += len(tsa_period["occurrences"]) * tsa_period["timesteps"]
     soc_ts = pd.concat(soc_frames)
 
     soc_ts["timestep"] = range(len(soc_ts))
-- 
2.43.0


From 03c0e099d30825a35796b502036f541b35205250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 21/26] fix: interval lengths in disaggregated storage content

---
 src/oemof/solph/processing.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 7c4d89d..f9acc25 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -281,7 +281,9 @@ def results(model, remove_last_time_point=False):
             result_index = model.es.timeindex
 
     if model.es.tsa_parameters is not None:
-        df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
+        df_dict = _disaggregate_tsa_result(
+            df_dict, model.es.tsa_parameters, model.timeincrement
+        )
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -457,7 +459,7 @@ def _extract_multi_period_model_result(
     return result
 
 
-def _disaggregate_tsa_result(df_dict, tsa_parameters):
+def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     """
     Disaggregate timeseries aggregated by TSAM
 
@@ -475,6 +477,8 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     tsa_parameters : list-of-dicts
         TSAM parameters holding order, occurrences and timsteps_per_period for
         each period
+    timeincrement : sequence
+        Length of the timesteps of the optimisation (default: one hour)
 
     Returns
     -------
@@ -539,7 +543,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     # Add storage SOC flows:
     for storage, soc in storages.items():
         flow_dict[(storage, None)] = _calculate_soc_from_inter_and_intra_soc(
-            soc, storage, tsa_parameters
+            soc, storage, tsa_parameters, timeincrement
         )
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
@@ -592,8 +596,12 @@ def _disaggregate_segmentation(
     return disaggregated_data
 
 
-def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
+def _calculate_soc_from_inter_and_intra_soc(
+    soc, storage, tsa_parameters, timeincrement=None
+):
     """Calculate resulting SOC from inter and intra SOC flows"""
+    if timeincrement is None:
+        timeincrement = _FakeSequence(1)
     soc_frames = []
     i_offset = 0
     t_offset = 0
@@ -622,7 +630,8 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
                                 (1 - storage.loss_rate[t])
                                 ** tsa_period["segments"][(k, t - t0)]
                                 if "segments" in tsa_period
-                                else 1 - storage.loss_rate[t]
+                                else (1 - storage.loss_rate[t])
+                                ** timeincrement[t]
                             )
                             for t in range(
                                 t0,
-- 
2.43.0


From 23bccb778a2d139a7524a4391e3c0654b14d55ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 22/26] fix: membership of results agrees with their keys

---
 src/oemof/solph/_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index efb7309..0b8ebfa 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -324,4 +324,4 @@ class Results:
             return rv
 
     def __contains__(self, key: Hashable) -> bool:
-        return key in self._solver_results or key in self._variables
+        return key in self.keys()
-- 
2.43.0


From b071820c7b9c3e844fcdf1bc4a784c68f2c8014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 23/26] fix: no offset in investment costs of units that are
 not built

---
 src/oemof/solph/_results.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 0b8ebfa..db5f465 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -193,6 +193,13 @@ class Results:
             category=FutureWarning,
         )
 
+    def _investment_offset(self, investment, col):
+        # The offset only arises if the investment is made.
+        if investment.nonconvex:
+            return investment.offset[0] * self["invest_status"][col][0]
+        else:
+            return investment.offset[0]
+
     def _calc_capex(self):
         self._economy_calculation_waring()
         # extract the the optimized investment sizes
@@ -225,7 +232,9 @@ class Results:
                             investment_costs = (
                                 self._model.flows[i, o].investment.ep_costs[0]
                                 * invest_size
-                                + self._model.flows[i, o].investment.offset[0]
+                                + self._investment_offset(
+                                    self._model.flows[i, o].investment, col
+                                )
                             )
 
                             # Save values to dictionary
@@ -250,7 +259,7 @@ class Results:
 
                             investment_costs = (
                                 node.investment.ep_costs[0] * invest_size
-                                + node.investment.offset[0]
+                                + self._investment_offset(node.investment, col)
                             )
 
                             # Save values to dictionary
-- 
2.43.0


From b14d83df283b3c9128021eaf986dbb4519587f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:35 +0000
Subject: [PATCH 24/26] fix: weight variable costs of results like in the
 objective

---
 src/oemof/solph/_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index db5f465..ab157c5 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -278,6 +278,10 @@ class Results:
         # extract the the optimized flow values
         flow_values = self.get("flow", pd.DataFrame())
 
+        weighting = [
+            self._model.objective_weighting[t] for t in self._model.TIMESTEPS
+        ]
+
         for i, o in self._model.FLOWS:
             # access the variable costs of each flow
             variable_costs = self._model.flows[i, o].variable_costs
@@ -285,7 +289,7 @@ class Results:
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
                 if col[0] == i and col[1] == o:
-                    opex = flow_values[col] * variable_costs
+                    opex = flow_values[col] * variable_costs * weighting
                     df_opex[col] = opex
 
         return df_opex
-- 
2.43.0


From a88cf6c56790ba0f873a380b5cb55980c2d2826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 25/26] fix: relative gap in the meta results when the bounds
 are zero

---
 src/oemof/solph/processing.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index f9acc25..433aa7f 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -810,15 +810,22 @@ def meta_results(om, undefined=False):
                     meta_res[k1][k2] = msg.format(
                         type(om.es.results[k1][0][k2])
                     )
-    meta_res["problem"]["MIPGap"] = abs(
+    deviation = abs(
         meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-    ) / (
+    )
+    mean = (
         abs(
             meta_res["problem"]["Upper bound"]
             + meta_res["problem"]["Lower bound"]
         )
         / 2
     )
+    if deviation == 0:
+        meta_res["problem"]["MIPGap"] = 0.0
+    elif mean == 0:
+        meta_res["problem"]["MIPGap"] = float("inf")
+    else:
+        meta_res["problem"]["MIPGap"] = deviation / mean
     return meta_res
 
 
-- 
2.43.0


From bc7bc54ff362f8b154eedda25eaf6c8deb292f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 26/26] fix: storage costs in aggregated models

---
 .../solph/components/_generic_storage.py      | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index b7911a0..74f024d 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -942,11 +942,7 @@ class GenericStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
-                        )
+                    storage_costs += _storage_costs_of_clusters(self, n)
 
         self.storage_costs = Expression(expr=storage_costs)
         self.costs = Expression(expr=storage_costs + fixed_costs)
@@ -954,6 +950,27 @@ class GenericStorageBlock(ScalarBlock):
         return self.costs
 
 
+def _storage_costs_of_clusters(block, n):
+    """Costs of the content at the end of every interval of all clusters"""
+    m = block.parent_block()
+    costs = 0
+    for p, i, g in m.TIMEINDEX_CLUSTER:
+        k = m.es.tsa_parameters[p]["order"][i]
+        t = m.get_timestep_from_tsam_timestep(p, k, g)
+        inter_i = (
+            sum(len(m.es.tsa_parameters[ip]["order"]) for ip in range(p)) + i
+        )
+        costs += n.storage_costs[t] * (
+            block.inter_storage_content[n, inter_i]
+            * math.prod(
+                (1 - n.loss_rate[s]) ** m.timeincrement[s]
+                for s in range(t - g, t + 1)
+            )
+            + block.intra_storage_delta[n, p, k, g + 1]
+        )
+    return costs
+
+
 class GenericInvestmentStorageBlock(ScalarBlock):
     r"""
     Block for all storages with :attr:`Investment` being not None.
@@ -2387,11 +2404,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
-                        )
+                    storage_costs += _storage_costs_of_clusters(self, n)
 
         self.storage_costs = Expression(expr=storage_costs)
 
-- 
2.43.0


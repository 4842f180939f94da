From 6e9739e8f2360b75d44e368ac66f8cd912bfe838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 01/65] fix: enforce minimum up and down times from the first
 flexible time step on

A flow that was switched in the very first time step in which its status is
not given by the initial status did not have to obey minimum_uptime and
minimum_downtime.
---
 src/oemof/solph/flows/_shared.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 6713750..27ed3ac 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -189,6 +189,14 @@ def variables_for_non_convex_flows(block):
         )
 
 
+def _previous_status(block, i, o, t):
+    """Status before timestep t, which is the initial status if t is 0."""
+    m = block.parent_block()
+    if t > m.TIMESTEPS.at(1):
+        return block.status[i, o, t - 1]
+    return m.flows[i, o].nonconvex.initial_status
+
+
 def _min_downtime_constraint(block):
     r"""
     .. math::
@@ -215,7 +223,7 @@ def _min_downtime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
@@ -223,7 +231,7 @@ def _min_downtime_constraint(block):
 
             expr = 0
             expr += (
-                block.status[i, o, t - 1] - block.status[i, o, t]
+                _previous_status(block, i, o, t) - block.status[i, o, t]
             ) * m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += -m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += sum(
@@ -269,14 +277,14 @@ def _min_uptime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
             # so testing is easier then just calling the rule for valid t.
             expr = 0
             expr += (
-                block.status[i, o, t] - block.status[i, o, t - 1]
+                block.status[i, o, t] - _previous_status(block, i, o, t)
             ) * m.flows[i, o].nonconvex.minimum_uptime[t]
             expr += -sum(
                 block.status[i, o, u]
-- 
2.43.0


From caffbc30a8e0feb4a81e30ab1044a26dec40b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 02/65] fix: make gradient limits of nonconvex flows effective

The gradient variables had no upper bound, so that the limits never took
effect, and the constraints were quadratic, so that linear solvers could not
be used.  The status is not needed in the constraint as the flow is zero
while the status is zero.
---
 src/oemof/solph/flows/_shared.py | 110 +++++++++++++------------------
 1 file changed, 46 insertions(+), 64 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 27ed3ac..2ed74e6 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -396,16 +396,14 @@ def shared_constraints_for_non_convex_flows(block):
     positive_gradient_constraint
         .. math::
 
-            P(t) \cdot Y_{status}(t)
-            - P(t-1) \cdot Y_{status}(t-1)  \leq \
-            \dot{P}_{up}(t), \\
+            P(t) - P(t-1)  \leq \dot{P}_{up}(t) \leq
+            \Delta_{up}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     negative_gradient_constraint
         .. math::
-            P(t-1) \cdot Y_{status}(t-1)
-            - P(t) \cdot Y_{status}(t) \leq \
-            \dot{P}_{down}(t), \\
+            P(t-1) - P(t) \leq \dot{P}_{down}(t) \leq
+            \Delta_{down}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     Also creates:
@@ -429,42 +427,33 @@ def shared_constraints_for_non_convex_flows(block):
     def _positive_gradient_flow_constraint(_):
         r"""Rule definition for positive gradient constraint."""
         for i, o in block.POSITIVE_GRADIENT_FLOWS:
-            for index in range(1, len(m.TIMEINDEX) + 1):
-                if m.TIMEINDEX[index][1] > 0:
-                    lhs = (
-                        m.flow[
-                            i,
-                            o,
-                            m.TIMESTEPS[index],
-                        ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
-                        - m.flow[i, o, m.TIMESTEPS[index - 1]]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
-                    )
-                    rhs = block.positive_gradient[i, o, m.TIMEINDEX[index][1]]
+            limit = m.flows[i, o].nonconvex.positive_gradient_limit
+            for p, t in m.TIMEINDEX:
+                if t > 0:
+                    # As the flow is zero whenever the status is zero,
+                    # there is no need to multiply it with the status.
                     block.positive_gradient_constr.add(
-                        (
-                            i,
-                            o,
-                            m.TIMESTEPS[index],
-                        ),
-                        lhs <= rhs,
+                        (i, o, t),
+                        m.flow[i, o, t] - m.flow[i, o, t - 1]
+                        <= block.positive_gradient[i, o, t],
+                    )
+                    block.positive_gradient_limit_constr.add(
+                        (i, o, t),
+                        block.positive_gradient[i, o, t]
+                        <= limit[t] * _gradient_base(block, i, o, p),
                     )
                 else:
-                    lhs = block.positive_gradient[i, o, 0]
-                    rhs = 0
                     block.positive_gradient_constr.add(
-                        (
-                            i,
-                            o,
-                            m.TIMESTEPS[index],
-                        ),
-                        lhs == rhs,
+                        (i, o, t),
+                        block.positive_gradient[i, o, t] == 0,
                     )
 
     block.positive_gradient_constr = Constraint(
         block.POSITIVE_GRADIENT_FLOWS, m.TIMESTEPS, noruleinit=True
     )
+    block.positive_gradient_limit_constr = Constraint(
+        block.POSITIVE_GRADIENT_FLOWS, m.TIMESTEPS, noruleinit=True
+    )
     block.positive_gradient_build = BuildAction(
         rule=_positive_gradient_flow_constraint
     )
@@ -472,51 +461,44 @@ def shared_constraints_for_non_convex_flows(block):
     def _negative_gradient_flow_constraint(_):
         r"""Rule definition for negative gradient constraint."""
         for i, o in block.NEGATIVE_GRADIENT_FLOWS:
-            for index in range(1, len(m.TIMESTEPS) + 1):
-                if m.TIMESTEPS[index] > 0:
-                    lhs = (
-                        m.flow[
-                            i,
-                            o,
-                            m.TIMESTEPS[index - 1],
-                        ]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
-                        - m.flow[
-                            i,
-                            o,
-                            m.TIMESTEPS[index],
-                        ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
-                    )
-                    rhs = block.negative_gradient[i, o, m.TIMESTEPS[index]]
+            limit = m.flows[i, o].nonconvex.negative_gradient_limit
+            for p, t in m.TIMEINDEX:
+                if t > 0:
                     block.negative_gradient_constr.add(
-                        (
-                            i,
-                            o,
-                            m.TIMESTEPS[index],
-                        ),
-                        lhs <= rhs,
+                        (i, o, t),
+                        m.flow[i, o, t - 1] - m.flow[i, o, t]
+                        <= block.negative_gradient[i, o, t],
+                    )
+                    block.negative_gradient_limit_constr.add(
+                        (i, o, t),
+                        block.negative_gradient[i, o, t]
+                        <= limit[t] * _gradient_base(block, i, o, p),
                     )
                 else:
-                    lhs = block.negative_gradient[i, o, 0]
-                    rhs = 0
                     block.negative_gradient_constr.add(
-                        (
-                            i,
-                            o,
-                            m.TIMESTEPS[index],
-                        ),
-                        lhs == rhs,
+                        (i, o, t),
+                        block.negative_gradient[i, o, t] == 0,
                     )
 
     block.negative_gradient_constr = Constraint(
         block.NEGATIVE_GRADIENT_FLOWS, m.TIMESTEPS, noruleinit=True
     )
+    block.negative_gradient_limit_constr = Constraint(
+        block.NEGATIVE_GRADIENT_FLOWS, m.TIMESTEPS, noruleinit=True
+    )
     block.negative_gradient_build = BuildAction(
         rule=_negative_gradient_flow_constraint
     )
 
 
+def _gradient_base(block, i, o, p):
+    """Capacity the normed gradient limits refer to."""
+    nominal_capacity = block.parent_block().flows[i, o].nominal_capacity
+    if nominal_capacity is None:
+        return block.invest[i, o, p]
+    return nominal_capacity
+
+
 def maximum_flow_constraint(block):
     r"""
     .. math::
-- 
2.43.0


From d6287f9c511ae0c9c2411ae3130bf9e18a447f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 03/65] fix: respect minimum of invested flows when it is zero
 in some time step

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 51f5ef9..9f1cd41 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -144,7 +144,11 @@ class InvestmentFlowBlock(ScalarBlock):
         )
 
         self.MIN_INVESTFLOWS = Set(
-            initialize=[(g[0], g[1]) for g in group if g[2].minimum.min() != 0]
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].minimum.min() != 0 or g[2].minimum.max() != 0
+            ]
         )
 
         self.EXISTING_INVESTFLOWS = Set(
-- 
2.43.0


From 110b3d577fb0ef8d42cd1f00f55529eeceed1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 04/65] fix: weight full load times of invested flows with
 aggregated time series

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 9f1cd41..0ddf074 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -681,7 +681,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) <= (
                 m.flows[i, o].full_load_time_max
                 * sum(self.total[i, o, p] for p in m.PERIODS)
@@ -698,7 +699,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) >= (
                 sum(self.total[i, o, p] for p in m.PERIODS)
                 * m.flows[i, o].full_load_time_min
-- 
2.43.0


From 182a2ff33ac219261dd7ca0da0a1a65f600dd9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 05/65] fix: weight startup costs with aggregated time series

---
 src/oemof/solph/flows/_shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 2ed74e6..40a0a0a 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -559,6 +559,7 @@ def startup_costs(block):
                 startup_costs += sum(
                     block.startup[i, o, t]
                     * m.flows[i, o].nonconvex.startup_costs[t]
+                    * m.tsam_weighting[t]
                     for t in m.TIMESTEPS
                 )
 
-- 
2.43.0


From 5d3cd6b71c825b1a918bbd6f83fc1ac042d826f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 06/65] fix: consider existing capacity of nonconvex flows with
 investment

---
 .../flows/_invest_non_convex_flow_block.py    | 29 ++++++++++++-------
 src/oemof/solph/flows/_shared.py              |  8 ++---
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 9d04efb..04fefff 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -190,7 +190,8 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         The resulting constraint is equivalent to
 
         .. math::
-            status\_nominal(i,o,t) = Y_{status}(t) \cdot P_{invest}.
+            status\_nominal(i,o,t)
+            = Y_{status}(t) \cdot (P_{invest} + P_{exist}).
 
         However, :math:`status` and :math:`invest` are variables
         (binary and continuous, respectively).
@@ -212,10 +213,10 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         * Case :math:`status = 1`
             .. math::
                 (1) \Rightarrow \text{ trivially fulfilled},\\
-                (2) \Rightarrow status\_nominal \leq P_{invest},\\
-                (3) \Rightarrow status\_nominal \geq P_{invest}.
+                (2) \Rightarrow status\_nominal \leq P_{invest} + P_{exist},\\
+                (3) \Rightarrow status\_nominal \geq P_{invest} + P_{exist}.
 
-            So, in total :math:`status\_nominal = P_{invest}`,
+            So, in total :math:`status\_nominal = P_{invest} + P_{exist}`,
             which is the desired result.
         """
         self.invest_nc_one = self._linearised_investment_constraint_1()
@@ -226,13 +227,15 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         r"""
         .. math::
             status\_nominal(i,o,t)
-            \leq Y_{status}(t) \cdot P_{invest, max}\quad (1)
+            \leq Y_{status}(t) \cdot (P_{invest, max} + P_{exist})\quad (1)
         """
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_one(_, i, o, p, t):
+            investment = m.flows[i, o].investment
             expr = (
-                self.status[i, o, t] * m.flows[i, o].investment.maximum[p]
+                self.status[i, o, t]
+                * (investment.maximum[p] + investment.existing)
                 >= self.status_nominal[i, o, t]
             )
             return expr
@@ -246,13 +249,16 @@ class InvestNonConvexFlowBlock(ScalarBlock):
     def _linearised_investment_constraint_2(self):
         r"""
         .. math::
-            status\_nominal(i,o,t) \leq P_{invest}\quad (2)
+            status\_nominal(i,o,t) \leq P_{invest} + P_{exist}\quad (2)
         """
 
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_two(_, i, o, p, t):
-            expr = self.invest[i, o, p] >= self.status_nominal[i, o, t]
+            expr = (
+                self.invest[i, o, p] + m.flows[i, o].investment.existing
+                >= self.status_nominal[i, o, t]
+            )
             return expr
 
         return Constraint(
@@ -265,16 +271,19 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         r"""
         .. math::
             status\_nominal(i,o,t) \geq
-            P_{invest} - (1 - Y_{status}(t)) \cdot P_{invest, max}\quad (3)
+            P_{invest} + P_{exist}
+            - (1 - Y_{status}(t)) \cdot (P_{invest, max} + P_{exist})\quad (3)
         """
 
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_three(_, i, o, p, t):
+            investment = m.flows[i, o].investment
             expr = (
                 self.invest[i, o, p]
+                + investment.existing
                 - (1 - self.status[i, o, t])
-                * m.flows[i, o].investment.maximum[p]
+                * (investment.maximum[p] + investment.existing)
                 <= self.status_nominal[i, o, t]
             )
             return expr
diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 40a0a0a..0068594 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -493,10 +493,10 @@ def shared_constraints_for_non_convex_flows(block):
 
 def _gradient_base(block, i, o, p):
     """Capacity the normed gradient limits refer to."""
-    nominal_capacity = block.parent_block().flows[i, o].nominal_capacity
-    if nominal_capacity is None:
-        return block.invest[i, o, p]
-    return nominal_capacity
+    flow = block.parent_block().flows[i, o]
+    if flow.nominal_capacity is None:
+        return block.invest[i, o, p] + flow.investment.existing
+    return flow.nominal_capacity
 
 
 def maximum_flow_constraint(block):
-- 
2.43.0


From 323ca5da789db5f116ed124a9da113c8141b65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 07/65] fix: keep initial status of nonconvex flows with
 investment

---
 src/oemof/solph/flows/_invest_non_convex_flow_block.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 04fefff..2a012a2 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -124,6 +124,12 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.status = Var(
             self.INVEST_NON_CONVEX_FLOWS, m.TIMESTEPS, within=Binary
         )
+        for i, o in self.INVEST_NON_CONVEX_FLOWS:
+            nonconvex = m.flows[i, o].nonconvex
+            if nonconvex.initial_status is not None:
+                for t in range(0, nonconvex.first_flexible_timestep):
+                    self.status[i, o, t] = nonconvex.initial_status
+                    self.status[i, o, t].fix()
 
         _shared.variables_for_non_convex_flows(self)
 
-- 
2.43.0


From c1704dffa2b217af63d4158c7b27375f9031b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 08/65] fix: allow minimum up and down times longer than the
 horizon

---
 src/oemof/solph/flows/_invest_non_convex_flow_block.py | 4 +++-
 src/oemof/solph/flows/_non_convex_flow_block.py        | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 2a012a2..0157265 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -127,7 +127,9 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         for i, o in self.INVEST_NON_CONVEX_FLOWS:
             nonconvex = m.flows[i, o].nonconvex
             if nonconvex.initial_status is not None:
-                for t in range(0, nonconvex.first_flexible_timestep):
+                for t in range(
+                    0, min(nonconvex.first_flexible_timestep, len(m.TIMESTEPS))
+                ):
                     self.status[i, o, t] = nonconvex.initial_status
                     self.status[i, o, t].fix()
 
diff --git a/src/oemof/solph/flows/_non_convex_flow_block.py b/src/oemof/solph/flows/_non_convex_flow_block.py
index ca63b5b..a809aa9 100644
--- a/src/oemof/solph/flows/_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_non_convex_flow_block.py
@@ -92,7 +92,11 @@ class NonConvexFlowBlock(ScalarBlock):
         for o, i in self.FIXED_CAPACITY_NONCONVEX_FLOWS:
             if m.flows[o, i].nonconvex.initial_status is not None:
                 for t in range(
-                    0, m.flows[o, i].nonconvex.first_flexible_timestep
+                    0,
+                    min(
+                        m.flows[o, i].nonconvex.first_flexible_timestep,
+                        len(m.TIMESTEPS),
+                    ),
                 ):
                     self.status[o, i, t] = m.flows[
                         o, i
-- 
2.43.0


From c48a4dbf154c9f417d1d288c3a1171f012c4d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 09/65] fix: respect full load times of nonconvex flows with
 investment

---
 .../flows/_invest_non_convex_flow_block.py    | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 0157265..ad2b4af 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -177,6 +177,7 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         .. automethod:: _minimum_invest_constraint
         .. automethod:: _maximum_invest_constraint
         .. automethod:: _linearised_investment_constraints
+        .. automethod:: _full_load_time_constraints
 
         Also creates
         * :py:func:`shared_constraints_for_non_convex_flows`,
@@ -192,6 +193,48 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.max = _shared.maximum_flow_constraint(self)
 
         self._linearised_investment_constraints()
+        self._full_load_time_constraints()
+
+    def _full_load_time_constraints(self):
+        r"""
+        .. math::
+            \sum_t P(t) \cdot \tau(t) \leq
+            \sum_p (P_{invest}(p) + P_{exist}) \cdot t_{full\_load, max}\\
+            \sum_t P(t) \cdot \tau(t) \geq
+            \sum_p (P_{invest}(p) + P_{exist}) \cdot t_{full\_load, min}
+        """
+        m = self.parent_block()
+
+        def _energy(i, o):
+            return sum(
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
+            )
+
+        def _capacity(i, o):
+            return sum(
+                self.invest[i, o, p] + m.flows[i, o].investment.existing
+                for p in m.PERIODS
+            )
+
+        def _full_load_time_max_rule(_, i, o):
+            limit = m.flows[i, o].full_load_time_max
+            if limit is None:
+                return Constraint.Skip
+            return _energy(i, o) <= limit * _capacity(i, o)
+
+        def _full_load_time_min_rule(_, i, o):
+            limit = m.flows[i, o].full_load_time_min
+            if limit is None:
+                return Constraint.Skip
+            return _energy(i, o) >= limit * _capacity(i, o)
+
+        self.full_load_time_max = Constraint(
+            self.INVEST_NON_CONVEX_FLOWS, rule=_full_load_time_max_rule
+        )
+        self.full_load_time_min = Constraint(
+            self.INVEST_NON_CONVEX_FLOWS, rule=_full_load_time_min_rule
+        )
 
     def _linearised_investment_constraints(self):
         r"""
-- 
2.43.0


From ec605381017dc9f3c70a5fd2d8e6c667144cabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 10/65] fix: respect fixed values of nonconvex flows with
 investment

---
 .../flows/_invest_non_convex_flow_block.py    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index ad2b4af..56c1c30 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -178,6 +178,7 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         .. automethod:: _maximum_invest_constraint
         .. automethod:: _linearised_investment_constraints
         .. automethod:: _full_load_time_constraints
+        .. automethod:: _fixed_flow_constraint
 
         Also creates
         * :py:func:`shared_constraints_for_non_convex_flows`,
@@ -194,6 +195,28 @@ class InvestNonConvexFlowBlock(ScalarBlock):
 
         self._linearised_investment_constraints()
         self._full_load_time_constraints()
+        self.fixed = self._fixed_flow_constraint()
+
+    def _fixed_flow_constraint(self):
+        r"""
+        .. math::
+            P(p, t) = (P_{invest}(p) + P_{exist}) \cdot f_{fix}(t)
+        """
+        m = self.parent_block()
+
+        def _fixed_flow_rule(_, i, o, p, t):
+            flow = m.flows[i, o]
+            if flow.fix is None:
+                return Constraint.Skip
+            return (
+                m.flow[i, o, t]
+                == (self.invest[i, o, p] + flow.investment.existing)
+                * flow.fix[t]
+            )
+
+        return Constraint(
+            self.INVEST_NON_CONVEX_FLOWS, m.TIMEINDEX, rule=_fixed_flow_rule
+        )
 
     def _full_load_time_constraints(self):
         r"""
-- 
2.43.0


From 4a18d7f186f1c0ab9c368cda0ad792be766179ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 11/65] fix: charge the full offset of invested flows in
 multi-period models

---
 src/oemof/solph/flows/_investment_flow_block.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 0ddf074..abebfee 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -984,16 +984,12 @@ class InvestmentFlowBlock(ScalarBlock):
                     present_value_factor_remaining = 1 / economics.annuity(
                         capex=1, n=duration, wacc=interest
                     )
-                    annuity_offset = economics.annuity(
-                        capex=m.flows[i, o].investment.offset[p],
-                        n=lifetime,
-                        wacc=interest,
-                    )
                     investment_costs_increment = (
                         self.invest[i, o, p]
                         * annuity
                         * present_value_factor_remaining
-                        + self.invest_status[i, o, p] * annuity_offset
+                        + self.invest_status[i, o, p]
+                        * m.flows[i, o].investment.offset[p]
                     )
                     remaining_value_difference = (
                         self._evaluate_remaining_value_difference(
-- 
2.43.0


From 3bafc485f5bd44e7b91a0c13d32c86f77657897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 12/65] fix: respect minimum level of invested storages at the
 last time point

---
 src/oemof/solph/components/_generic_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index fa9b6f1..e899b0d 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1511,12 +1511,12 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
         # The storage content is a non-negative variable, therefore it makes no
         # sense to create an additional constraint if the lower bound is zero
-        # for all time steps.
+        # for all points in time.
         self.MIN_INVESTSTORAGES = Set(
             initialize=[
                 n
                 for n in group
-                if sum([n.min_storage_level[t] for t in m.TIMESTEPS]) > 0
+                if n.min_storage_level.max() > 0
             ]
         )
 
-- 
2.43.0


From d1e517a6619102506c84b4dc7b1c91073619007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 13/65] fix: limit final content of invested storages in
 multi-period models

---
 src/oemof/solph/components/_generic_storage.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index e899b0d..d9ab3e6 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -2129,6 +2129,11 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     rule=_min_storage_content_invest_rule,
                 )
             else:
+                # the content at the end of the last time step belongs to
+                # the last period
+                content_index = list(m.TIMEINDEX) + [
+                    (m.PERIODS.at(-1), m.TIMEPOINTS.at(-1))
+                ]
 
                 def _max_storage_content_invest_rule(_, n, p, t):
                     """
@@ -2143,7 +2148,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
                 self.max_storage_content = Constraint(
                     self.INVESTSTORAGES,
-                    m.TIMEINDEX,
+                    content_index,
                     rule=_max_storage_content_invest_rule,
                 )
 
@@ -2160,7 +2165,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
                 self.min_storage_content = Constraint(
                     self.MIN_INVESTSTORAGES,
-                    m.TIMEINDEX,
+                    content_index,
                     rule=_min_storage_content_invest_rule,
                 )
         else:
-- 
2.43.0


From e422be47c54f8706bf72de497a05cf0a88ddb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 14/65] fix: offset of OffsetConverter helpers for maximum load
 different from one

---
 src/oemof/solph/components/_offset_converter.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 4c161b6..0c63096 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -63,7 +63,7 @@ class OffsetConverter(Node):
         m = \frac{l_\text{max}/\eta_\text{max}-l_\text{min}/\eta_\text{min}}
         {l_\text{max}-l_\text{min}}
 
-        y_\text{0,normed} = \frac{1}{\eta_{max}} - m
+        y_\text{0,normed} = l_\text{max} \cdot \left(\frac{1}{\eta_{max}} - m\right)
 
     Where :math:`l_{max}` and :math:`l_{min}` are the maximum and minimum
     partload share (e.g. 1.0 and 0.5) with reference to the `NonConvex` flow
@@ -96,7 +96,7 @@ class OffsetConverter(Node):
     >>> eta_max = 0.5
     >>> eta_min = 0.3
     >>> slope = (l_max / eta_max - l_min / eta_min) / (l_max - l_min)
-    >>> offset = 1 / eta_max - slope
+    >>> offset = l_max * (1 / eta_max - slope)
 
     Or use the provided method as explained in the previous section:
 
@@ -123,13 +123,13 @@ class OffsetConverter(Node):
     The input required to operate at minimum load, can be computed from the
     slope and offset:
 
-    >>> input_at_min = ostf.conversion_factors[bel][0] * l_min + ostf.normed_offsets[bel][0] * l_max
+    >>> input_at_min = ostf.conversion_factors[bel][0] * l_min + ostf.normed_offsets[bel][0]
     >>> input_at_min * l_nominal
     100.0
 
     The same can be done for the input at nominal load:
 
-    >>> input_at_max = l_max * (ostf.conversion_factors[bel][0] + ostf.normed_offsets[bel][0])
+    >>> input_at_max = ostf.conversion_factors[bel][0] * l_max + ostf.normed_offsets[bel][0]
     >>> input_at_max * l_nominal
     120.0
 
@@ -527,7 +527,7 @@ def slope_offset_from_nonconvex_input(
             - \text{min} \cdot \eta_\text{at min}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \eta_\text{at,max} - \text{slope}
+        \text{offset} = \text{max} \cdot (\eta_\text{at,max} - \text{slope})
 
     Parameters
     ----------
@@ -580,7 +580,7 @@ def slope_offset_from_nonconvex_input(
     slope = (max_load * eta_at_max - min_load * eta_at_min) / (
         max_load - min_load
     )
-    offset = eta_at_max - slope
+    offset = max_load * (eta_at_max - slope)
     return slope, offset
 
 
@@ -604,7 +604,8 @@ def slope_offset_from_nonconvex_output(
             - \frac{\text{min}}{\eta_\text{at min}}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \frac{1}{\eta_\text{at,max}} - \text{slope}
+        \text{offset} = \text{max} \cdot \left(
+            \frac{1}{\eta_\text{at,max}} - \text{slope}\right)
 
     Parameters
     ----------
@@ -657,5 +658,5 @@ def slope_offset_from_nonconvex_output(
     slope = (max_load / eta_at_max - min_load / eta_at_min) / (
         max_load - min_load
     )
-    offset = 1 / eta_at_max - slope
+    offset = max_load * (1 / eta_at_max - slope)
     return slope, offset
-- 
2.43.0


From e79dde47887c445a4d3013f7b50697864d3e0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 15/65] fix: respect minimum flue gas losses of GenericCHP

---
 src/oemof/solph/components/_generic_chp.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 572b200..7bc9bca 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -492,8 +492,11 @@ class GenericCHPBlock(ScalarBlock):
         def _H_L_FG_min_rule(block, n, t):
             """Set min. flue gas loss as fuel flow share."""
             # minimum flue gas losses e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += -self.H_L_FG_min[n, t]
@@ -514,13 +517,19 @@ class GenericCHPBlock(ScalarBlock):
         def _Q_min_res_rule(block, n, t):
             """Set minimum Q depending on fuel and eletrical flow."""
             # minimum restriction for heat flows e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += self.P[n, t] + self.Q[n, t] + self.H_L_FG_min[n, t]
                 expr += (
-                    list(n.heat_output.values())[0].Q_CW_min[t] * self.Y[n, t]
+                    list(n.heat_output.values())[0].custom_properties[
+                        "Q_CW_min"
+                    ][t]
+                    * self.Y[n, t]
                 )
                 expr += -self.H_F[n, t]
                 return expr >= 0
-- 
2.43.0


From 6c1e61b3cdfbc129dc924ec9d5b1a62df4b7056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 16/65] fix: output bounds of PiecewiseLinearConverter for
 falling conversion functions

---
 .../experimental/_piecewise_linear_converter.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index fad3b91..ac492e7 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -168,12 +168,12 @@ class PiecewiseLinearConverterBlock(ScalarBlock):
         lower_bound_in = {n: min(n.in_breakpoints) for n in group}
         upper_bound_in = {n: max(n.in_breakpoints) for n in group}
         lower_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in lower_bound_in.items()
+            n: min(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
         upper_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in upper_bound_in.items()
+            n: max(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
 
         def get_inflow_bounds(model, n, t):
-- 
2.43.0


From fdbc6ee7b00e2cf914d548620a278a4cff53d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 17/65] fix: consider on/off flows in investment limits

---
 .../solph/constraints/investment_limit.py     | 25 +++++++++++++------
 .../flows/_invest_non_convex_flow_block.py    | 10 ++++++--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index bbf5e83..cdf6a37 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -35,9 +35,12 @@ def investment_limit(model, limit=None):
     def investment_rule(m):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        if hasattr(m.InvestmentFlowBlock, "investment_costs"):
             expr += m.InvestmentFlowBlock.investment_costs
 
+        if hasattr(m.InvestNonConvexFlowBlock, "investment_costs"):
+            expr += m.InvestNonConvexFlowBlock.investment_costs
+
         if hasattr(m, "GenericInvestmentStorageBlock"):
             expr += m.GenericInvestmentStorageBlock.investment_costs
 
@@ -96,9 +99,12 @@ def investment_limit_per_period(model, limit=None):
     def investment_period_rule(m, p):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        if hasattr(m.InvestmentFlowBlock, "period_investment_costs"):
             expr += m.InvestmentFlowBlock.period_investment_costs[p]
 
+        if hasattr(m.InvestNonConvexFlowBlock, "period_investment_costs"):
+            expr += m.InvestNonConvexFlowBlock.period_investment_costs[p]
+
         if hasattr(m, "GenericInvestmentStorageBlock"):
             expr += m.GenericInvestmentStorageBlock.period_investment_costs[p]
 
@@ -200,13 +206,18 @@ def additional_investment_flow_limit(model, keyword, limit=None):
     1500
     """  # noqa: E501
     investments = {}
+    invest = {}
 
     for i, o in model.flows:
-        if (
-            model.flows[i, o].investment is not None
-            and keyword in model.flows[i, o].investment.custom_properties
+        investment = model.flows[i, o].investment
+        if investment is not None and keyword in (
+            investment.custom_properties or {}
         ):
-            investments[(i, o)] = model.flows[i, o].investment
+            investments[(i, o)] = investment
+            if model.flows[i, o].nonconvex is None:
+                invest[(i, o)] = model.InvestmentFlowBlock.invest
+            else:
+                invest[(i, o)] = model.InvestNonConvexFlowBlock.invest
 
     limit_name = "invest_limit_" + keyword
 
@@ -215,7 +226,7 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         limit_name,
         po.Expression(
             expr=sum(
-                model.InvestmentFlowBlock.invest[i, o, p]
+                invest[i, o][i, o, p]
                 * investments[i, o].custom_properties[keyword]
                 for (i, o) in investments
                 for p in model.PERIODS
diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 56c1c30..4f1b23a 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -395,20 +395,26 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         inactivity_costs = _shared.inactivity_costs(self)
         investment_costs = 0
 
+        period_investment_costs = {p: 0 for p in m.PERIODS}
+
         for i, o in self.LINEAR_INVEST_NON_CONVEX_FLOWS:
             for p in m.PERIODS:
-                investment_costs += (
+                period_investment_costs[p] += (
                     self.invest[i, o, p] * m.flows[i, o].investment.ep_costs[p]
                 )
 
         for i, o in self.OFFSET_INVEST_NON_CONVEX_FLOWS:
             for p in m.PERIODS:
-                investment_costs += (
+                period_investment_costs[p] += (
                     self.invest[i, o, p] * m.flows[i, o].investment.ep_costs[p]
                     + m.flows[i, o].investment.offset[p]
                     * self.invest_status[i, o, p]
                 )
 
+        for p in m.PERIODS:
+            investment_costs += period_investment_costs[p]
+
+        self.period_investment_costs = period_investment_costs
         self.investment_costs = Expression(expr=investment_costs)
 
         return (
-- 
2.43.0


From 1e344d79c795b145769f5ab47fc00a2bba716b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 18/65] fix: count invested on/off flows in
 limit_active_flow_count

---
 src/oemof/solph/constraints/flow_count_limit.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/constraints/flow_count_limit.py b/src/oemof/solph/constraints/flow_count_limit.py
index a57e9eb..ccae253 100644
--- a/src/oemof/solph/constraints/flow_count_limit.py
+++ b/src/oemof/solph/constraints/flow_count_limit.py
@@ -78,11 +78,14 @@ def limit_active_flow_count(
 
     attrname_constraint = constraint_name + "_constraint"
 
+    def _status(m, fi, fo, ts):
+        if m.flows[fi, fo].investment is not None:
+            return m.InvestNonConvexFlowBlock.status[fi, fo, ts]
+        return m.NonConvexFlowBlock.status[fi, fo, ts]
+
     def _flow_count_rule(m):
         for ts in m.TIMESTEPS:
-            lhs = sum(
-                m.NonConvexFlowBlock.status[fi, fo, ts] for fi, fo in flows
-            )
+            lhs = sum(_status(m, fi, fo, ts) for fi, fo in flows)
             rhs = getattr(model, constraint_name)[ts]
             expr = lhs == rhs
             if expr is not True:
@@ -130,8 +133,11 @@ def limit_active_flow_count_by_keyword(
     limit_active_flow_count
     """
     flows = []
-    for i, o in model.NonConvexFlowBlock.FIXED_CAPACITY_NONCONVEX_FLOWS:
-        if keyword in model.flows[i, o].custom_properties:
+    for i, o in model.flows:
+        if (
+            model.flows[i, o].nonconvex is not None
+            and keyword in model.flows[i, o].custom_properties
+        ):
             flows.append((i, o))
 
     return limit_active_flow_count(
-- 
2.43.0


From b1a7ce1bb47a7b7a7ca19b1453230ac4270bf59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 19/65] fix: consistent storage losses in models with
 aggregated time series

---
 .../solph/components/_generic_storage.py      | 44 +++++++++----------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index d9ab3e6..6907f6c 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -22,7 +22,6 @@ SPDX-License-Identifier: MIT
 
 """
 
-import math
 import numbers
 from warnings import warn
 
@@ -428,6 +427,17 @@ class GenericStorage(Node):
             return GenericStorageBlock
 
 
+def _tsam_retention(m, n, p, k, steps):
+    """Share of the content of storage `n` that is left after the given
+    number of time steps of the typical period `k` (TSAM mode only).
+    """
+    retention = 1
+    for g in range(steps):
+        t = m.get_timestep_from_tsam_timestep(p, k, g)
+        retention *= (1 - n.loss_rate[t]) ** m.timeincrement[t]
+    return retention
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -655,7 +665,6 @@ class GenericStorageBlock(ScalarBlock):
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -665,7 +674,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     rhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _tsam_retention(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     self.storage_inter_minimum_level.add(
@@ -686,7 +695,6 @@ class GenericStorageBlock(ScalarBlock):
                 for p, i, g in m.TIMEINDEX_CLUSTER:
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -696,7 +704,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     lhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _tsam_retention(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     rhs = n.nominal_storage_capacity * n.max_storage_level[t]
@@ -799,15 +807,8 @@ class GenericStorageBlock(ScalarBlock):
             k = m.es.tsa_parameters[p]["order"][ii]
 
             # Calculate inter losses over whole typical period
-            t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
-            losses = math.prod(
-                (
-                    (1 - n.loss_rate[t0 + s])
-                    ** m.es.tsa_parameters[p]["segments"][(k, s)]
-                    if "segments" in m.es.tsa_parameters[p]
-                    else 1 - n.loss_rate[t0 + s]
-                )
-                for s in range(m.es.tsa_parameters[p]["timesteps"])
+            losses = _tsam_retention(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
 
             expr = 0
@@ -1918,14 +1919,11 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     break
 
             k = m.es.tsa_parameters[p]["order"][ii]
-            t = m.get_timestep_from_tsam_timestep(
-                p, k, m.es.tsa_parameters[p]["timesteps"] - 1
-            )
             expr = 0
             expr += block.inter_storage_content[n, i + 1]
-            expr += -block.inter_storage_content[n, i] * (
-                1 - n.loss_rate[t]
-            ) ** (m.timeincrement[t] * m.es.tsa_parameters[p]["timesteps"])
+            expr += -block.inter_storage_content[n, i] * _tsam_retention(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
+            )
             expr += -self.intra_storage_delta[
                 n, p, k, m.es.tsa_parameters[p]["timesteps"]
             ]
@@ -2175,7 +2173,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     for p, i, g in m.TIMEINDEX_CLUSTER:
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2185,7 +2182,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         lhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _tsam_retention(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         rhs = self.total[n, p] * n.max_storage_level[t]
@@ -2210,7 +2207,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2220,7 +2216,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         rhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _tsam_retention(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         self.storage_inter_minimum_level.add(
-- 
2.43.0


From 86639fc0a3ac4462ebc0e1dc851c0fdfef058b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 20/65] fix: aggregated time steps of periods with different
 lengths

---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 093eaeb..2d79c28 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -516,7 +516,7 @@ class Model(po.ConcreteModel):
     def get_timestep_from_tsam_timestep(self, p, ik, g):
         """Return original timestep from cluster-based timestep"""
         t = (
-            p * len(self.TIMESTEPS_IN_PERIOD[p])
+            sum(len(self.TIMESTEPS_IN_PERIOD[pp]) for pp in range(p))
             + ik * self.es.tsa_parameters[p]["timesteps"]
             + g
         )
-- 
2.43.0


From 86dc82b7c44eee0fe02cf1a55677e2adedaafd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 21/65] fix: limit final content of storages with aggregated
 time series

---
 .../solph/components/_generic_storage.py      | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 6907f6c..65908c6 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -438,6 +438,14 @@ def _tsam_retention(m, n, p, k, steps):
     return retention
 
 
+def _tsam_content_index(m):
+    """Indices of the content of storages in the original sequence of periods
+    including the end of the last time step (TSAM mode only).
+    """
+    p, i, g = m.TIMEINDEX_CLUSTER[-1]
+    return m.TIMEINDEX_CLUSTER + [(p, i, g + 1)]
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -661,7 +669,7 @@ class GenericStorageBlock(ScalarBlock):
             # https://github.com/FZJ-IEK3-VSA/FINE/blob/
             # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
             for n in self.STORAGES:
-                for p, i, g in m.TIMEINDEX_CLUSTER:
+                for p, i, g in _tsam_content_index(m):
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
@@ -683,7 +691,7 @@ class GenericStorageBlock(ScalarBlock):
 
         if m.TSAM_MODE:
             self.storage_inter_minimum_level = Constraint(
-                self.STORAGES, m.TIMEINDEX_CLUSTER, noruleinit=True
+                self.STORAGES, _tsam_content_index(m), noruleinit=True
             )
 
             self.storage_inter_minimum_level_build = BuildAction(
@@ -692,7 +700,7 @@ class GenericStorageBlock(ScalarBlock):
 
         def _storage_inter_maximum_level_rule(block):
             for n in self.STORAGES:
-                for p, i, g in m.TIMEINDEX_CLUSTER:
+                for p, i, g in _tsam_content_index(m):
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
                     inter_i = (
@@ -714,7 +722,7 @@ class GenericStorageBlock(ScalarBlock):
 
         if m.TSAM_MODE:
             self.storage_inter_maximum_level = Constraint(
-                self.STORAGES, m.TIMEINDEX_CLUSTER, noruleinit=True
+                self.STORAGES, _tsam_content_index(m), noruleinit=True
             )
 
             self.storage_inter_maximum_level_build = BuildAction(
@@ -2170,7 +2178,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
             def _storage_inter_maximum_level_rule(block):
                 for n in self.INVESTSTORAGES:
-                    for p, i, g in m.TIMEINDEX_CLUSTER:
+                    for p, i, g in _tsam_content_index(m):
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
                         inter_i = (
@@ -2191,7 +2199,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
 
             self.storage_inter_maximum_level = Constraint(
-                self.INVESTSTORAGES, m.TIMEINDEX_CLUSTER, noruleinit=True
+                self.INVESTSTORAGES, _tsam_content_index(m), noruleinit=True
             )
 
             self.storage_inter_maximum_level_build = BuildAction(
@@ -2203,7 +2211,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 # https://github.com/FZJ-IEK3-VSA/FINE/blob/
                 # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
                 for n in self.INVESTSTORAGES:
-                    for p, i, g in m.TIMEINDEX_CLUSTER:
+                    for p, i, g in _tsam_content_index(m):
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
@@ -2224,7 +2232,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
 
             self.storage_inter_minimum_level = Constraint(
-                self.INVESTSTORAGES, m.TIMEINDEX_CLUSTER, noruleinit=True
+                self.INVESTSTORAGES, _tsam_content_index(m), noruleinit=True
             )
 
             self.storage_inter_minimum_level_build = BuildAction(
-- 
2.43.0


From 26f13d048641d48cda11a5a39b28f1938e1845c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 22/65] fix: initial content of invested storages with
 aggregated time series

---
 .../solph/components/_generic_storage.py      | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 65908c6..98f0260 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1805,18 +1805,19 @@ class GenericInvestmentStorageBlock(ScalarBlock):
             def _initially_empty_rule(_):
                 """Ensure storage to be empty initially"""
                 for n in self.INVESTSTORAGES:
-                    expr = self.storage_content[n, 0] == 0
+                    if not m.TSAM_MODE:
+                        expr = self.storage_content[n, 0] == 0
+                    else:
+                        expr = self.inter_storage_content[n, 0] == 0
                     self.initially_empty.add((n, 0), expr)
 
-            if not m.TSAM_MODE:
-                # inter and intra initial storage contents are handled above
-                self.initially_empty = Constraint(
-                    self.INVESTSTORAGES, m.TIMESTEPS, noruleinit=True
-                )
+            self.initially_empty = Constraint(
+                self.INVESTSTORAGES, m.TIMESTEPS, noruleinit=True
+            )
 
-                self.initially_empty_build = BuildAction(
-                    rule=_initially_empty_rule
-                )
+            self.initially_empty_build = BuildAction(
+                rule=_initially_empty_rule
+            )
 
         # Standard storage implementation for discrete time points
         else:
@@ -1826,7 +1827,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs <= n.investment.existing + block.invest[n, 0]
 
             self.init_content_limit = Constraint(
@@ -1839,7 +1840,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs == n.initial_storage_level * (
                     n.investment.existing + block.invest[n, 0]
                 )
-- 
2.43.0


From 0a70380771b3c68880fd1442bb6d55f828eebe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 23/65] fix: storage costs with aggregated time series

---
 .../solph/components/_generic_storage.py      | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 98f0260..66e2643 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -446,6 +446,23 @@ def _tsam_content_index(m):
     return m.TIMEINDEX_CLUSTER + [(p, i, g + 1)]
 
 
+def _tsam_contents(m, block, n):
+    """Content of storage `n` at the end of each time step in the original
+    sequence of periods (TSAM mode only).
+    """
+    inter = -1
+    for p, i, g in m.TIMEINDEX_CLUSTER:
+        k = m.es.tsa_parameters[p]["order"][i]
+        if g == 0:
+            inter += 1
+        content = (
+            block.inter_storage_content[n, inter]
+            * _tsam_retention(m, n, p, k, g + 1)
+            + block.intra_storage_delta[n, p, k, g + 1]
+        )
+        yield (p, i, g), content
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -952,11 +969,11 @@ class GenericStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
+                    for (p, i, g), content in _tsam_contents(m, self, n):
+                        t = m.get_timestep_from_tsam_timestep(
+                            p, m.es.tsa_parameters[p]["order"][i], g
                         )
+                        storage_costs += content * n.storage_costs[t]
 
         self.storage_costs = Expression(expr=storage_costs)
         self.costs = Expression(expr=storage_costs + fixed_costs)
@@ -2391,11 +2408,11 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
+                    for (p, i, g), content in _tsam_contents(m, self, n):
+                        t = m.get_timestep_from_tsam_timestep(
+                            p, m.es.tsa_parameters[p]["order"][i], g
                         )
+                        storage_costs += content * n.storage_costs[t]
 
         self.storage_costs = Expression(expr=storage_costs)
 
-- 
2.43.0


From ea812af8cc346ffbc07a91a34512ad5cd6b830b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 24/65] fix: weight integral limits with aggregated time series

---
 src/oemof/solph/constraints/integral_limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 679e17a..3f2b30d 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -165,6 +165,7 @@ def generic_integral_limit(
             expr=sum(
                 om.flow[i, o, t]
                 * om.timeincrement[t]
+                * om.tsam_weighting[t]
                 * sequence(flows[i, o].custom_properties[keyword])[t]
                 for (i, o) in flows
                 for t in om.TIMESTEPS
@@ -251,6 +252,7 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
         expr = sum(
             om.flow[i, o, t]
             * om.timeincrement[t]
+            * om.tsam_weighting[t]
             * sequence(flows[i, o].custom_properties[keyword])[t]
             for (i, o) in flows
             for t in m.TIMESTEPS_IN_PERIOD[p]
-- 
2.43.0


From 1688ba4b9afee43a4dc01418a7e4d4d1bd278911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 25/65] fix: flow indices of storage_level_constraint with
 aggregated time series

---
 src/oemof/solph/constraints/storage_level.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index 5feba7f..cc870cc 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -164,7 +164,7 @@ def storage_level_constraint(
         def _constraint_output_rule(m, o, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[multiplexer_bus, o, p, t]
+                m.flow[multiplexer_bus, o, t]
                 / m.flows[multiplexer_bus, o].nominal_capacity
                 <= active_output[o, p, k, g]
             )
@@ -307,7 +307,7 @@ def storage_level_constraint(
         def _constraint_input_rule(m, i, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[i, multiplexer_bus, p, t]
+                m.flow[i, multiplexer_bus, t]
                 / m.flows[i, multiplexer_bus].nominal_capacity
                 <= 1 - inactive_input[i, p, k, g]
             )
-- 
2.43.0


From 696d0bb610f9b65b209a46f3153c5fffec796d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 26/65] fix: storage content in storage_level_constraint with
 aggregated time series

---
 src/oemof/solph/constraints/storage_level.py | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index cc870cc..9a08d16 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -9,6 +9,8 @@ SPDX-License-Identifier: MIT
 
 from pyomo import environ as po
 
+from oemof.solph.components._generic_storage import _tsam_retention
+
 
 def storage_level_constraint(
     model,
@@ -126,8 +128,9 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                inter_i = i + sum(
+                    len(m.es.tsa_parameters[pp]["order"]) for pp in range(p)
+                )
                 for o in output_levels:
                     getattr(m, constraint_name).add(
                         (o, p, i, g),
@@ -136,10 +139,11 @@ def storage_level_constraint(
                                 storage_component, p, k, g + 1
                             ]
                             + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
+                                storage_component, inter_i
                             ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
+                            * _tsam_retention(
+                                m, storage_component, p, k, g + 1
+                            )
                         )
                         / storage_component.nominal_storage_capacity
                         >= active_output[o, p, k, g] * output_levels[o],
@@ -268,20 +272,20 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                inter_i = i + sum(
+                    len(m.es.tsa_parameters[pp]["order"]) for pp in range(p)
+                )
                 for inp in input_levels:
                     getattr(m, constraint_name).add(
                         (inp, p, i, g),
                         (
                             m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
+                                storage_component, p, k, g
                             ]
                             + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
+                                storage_component, inter_i
                             ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
+                            * _tsam_retention(m, storage_component, p, k, g)
                         )
                         / storage_component.nominal_storage_capacity
                         - input_levels[inp]
-- 
2.43.0


From 396c24f467ab522cdcec5f409f6b715e851fa2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 27/65] fix: compare lengths of sequences by value

---
 src/oemof/solph/_plumbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 4459b31..908639a 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -60,10 +60,10 @@ def sequence(iterable_or_scalar, length=None):
     if iterable_or_scalar is None:
         return None
     if isinstance(iterable_or_scalar, abc.Iterable):
-        if length and length is not len(iterable_or_scalar):
+        if length and length != len(iterable_or_scalar):
             raise ValueError(
                 f"Length mismatch: Cannot create sequence of length {length}"
-                + " from input {iterable_or_scalar}."
+                + f" from input {iterable_or_scalar}."
             )
         else:
             if isinstance(iterable_or_scalar, str):
-- 
2.43.0


From 9e9d60a995e233d9d4f33817af9259860588c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 28/65] fix: reject descending time indexes when inferring the
 last interval

---
 src/oemof/solph/_energy_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 46399d7..9b80310 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -113,7 +113,8 @@ class EnergySystem(es.EnergySystem):
                         timeindex[-1] + timeindex.freq,
                         periods=1,
                         freq=timeindex.freq,
-                    )
+                    ),
+                    sort=False,
                 )
             # AttributeError: timeindex has no freq
             # TypeError: adding freq failed
-- 
2.43.0


From 898dbf03e68910d3a3bcd93a1fe77311fe3fe578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 29/65] fix: index of sequences in results of multi-period
 models

The re-indexed table was lost if the number of rows did not match.
---
 src/oemof/solph/processing.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index db1439c..b990db0 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -193,14 +193,20 @@ def set_result_index(df_dict, k, result_index):
 
 
 def set_sequences_index(df, result_index):
+    """Return the sequences with the given index
+
+    If the index has no label for the last time point, its value is omitted.
+    If it has a label for the last time point but there are only values for
+    the intervals, the last row is empty.
+    """
+    if len(df) == len(result_index) + 1:
+        df = df[:-1]
+    elif len(df) == len(result_index) - 1:
+        df = df.reindex([*df.index, df.index[-1] + 1])
     try:
-        df.index = result_index
+        return df.set_axis(result_index)
     except ValueError:
-        try:
-            df = df[:-1]
-            df.index = result_index
-        except ValueError:
-            raise ValueError("Results extraction failed!")
+        raise ValueError("Results extraction failed!")
 
 
 def results(model, remove_last_time_point=False):
@@ -434,10 +440,14 @@ def _extract_multi_period_model_result(
         sequences = df_dict[k].loc[
             :, [col for col in df_dict[k].columns if col not in period_cols]
         ]
-        if remove_last_time_point:
-            set_sequences_index(sequences, result_index[:-1])
+        if remove_last_time_point and not model.es.tsa_parameters:
+            # The timeindex might not contain the last time point.
+            sequences = set_sequences_index(
+                sequences[: len(model.TIMESTEPS)],
+                result_index[: len(model.TIMESTEPS)],
+            )
         else:
-            set_sequences_index(sequences, result_index)
+            sequences = set_sequences_index(sequences, result_index)
         if period_scalars.empty:
             period_scalars = pd.DataFrame(index=d.values())
         try:
-- 
2.43.0


From b64e7293174d081b3b804ceecfd9685b88cd27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 30/65] fix: list investment status among period scalars

---
 src/oemof/solph/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index b990db0..7b324e9 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -302,7 +302,7 @@ def results(model, remove_last_time_point=False):
 
     # Results extraction for a multi-period model
     else:
-        period_indexed = ["invest", "total", "old", "old_end", "old_exo"]
+        period_indexed = list(PERIOD_INDEXES)
 
         result = _extract_multi_period_model_result(
             model,
-- 
2.43.0


From 75c651e870907d652531a062e56fd666dec77722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 31/65] fix: results with duals of models without balanced bus

---
 src/oemof/solph/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 7b324e9..beb7703 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -315,7 +315,7 @@ def results(model, remove_last_time_point=False):
         scalars_col = "period_scalars"
 
     # add dual variables for bus constraints
-    if model.dual is not None:
+    if model.dual is not None and hasattr(model.BusBlock, "balance"):
         grouped = groupby(
             sorted(model.BusBlock.balance.iterkeys()), lambda t: t[0]
         )
-- 
2.43.0


From 8698e0e952ce455fd286c1637a0132a925c4371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 32/65] fix: time index of variables in results of multi-period
 models

The timeindex of a multi-period model usually holds the beginning of every
interval only, so that Results.get failed because of mismatching lengths.
---
 src/oemof/solph/_results.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index efb7309..6bed480 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -152,15 +152,31 @@ class Results:
             index_type = tuple(dataset.index_set().subsets())[-1].name
             match index_type:
                 case "TIMEPOINTS":
-                    rv.index = self._model.es.timeindex
+                    rv.index = self._timepoints()
                 case "TIMESTEPS":
-                    rv.index = self._model.es.timeindex[:-1]
+                    rv.index = self._timepoints()[:-1]
                 case _:
                     rv.index = rv.index.get_level_values(-1)
         else:
             rv = default
         return rv
 
+    def _timepoints(self):
+        """Index of all time points, including the end of the last interval
+
+        Multi-period models can be defined using a timeindex that contains the
+        beginning of every interval only.
+        """
+        es = self._model.es
+        if es.periods is not None and len(es.timeindex) == len(
+            es.timeincrement
+        ):
+            end = es.timeindex[-1] + pd.Timedelta(
+                hours=list(es.timeincrement)[-1]
+            )
+            return es.timeindex.append(pd.DatetimeIndex([end]))
+        return es.timeindex
+
     # --- BEGIN: The following code can be removed for versions >= v0.7 ---
     def to_df(self, variable: str) -> pd.DataFrame | pd.Series:
         """Compatibility wrapper for Results.get."""
-- 
2.43.0


From cbc10010dc348813b8c3a0afba4c22a3ad493112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 33/65] fix: scalars in results of models with a single time
 step

---
 src/oemof/solph/processing.py | 44 +++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index beb7703..5a48eca 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -140,7 +140,24 @@ def create_dataframe(om):
     return df
 
 
-def divide_scalars_sequences(df_dict, k):
+def get_time_independent_variables(om):
+    """Get the names of all variables that are not indexed by time"""
+    return {
+        bv.name.split(".")[-1]
+        for bv in om.component_objects(Var)
+        if len(bv) and bv.is_indexed()
+        and (
+            list(bv.index_set().subsets())[-1].name == "PERIODS"
+            or all(
+                isinstance(n, Entity)
+                for i in bv
+                for n in (i if isinstance(i, tuple) else (i,))
+            )
+        )
+    }
+
+
+def divide_scalars_sequences(df_dict, k, time_independent=()):
     """Split results into scalars and sequences results
 
     Parameters
@@ -149,9 +166,12 @@ def divide_scalars_sequences(df_dict, k):
         dict of pd.DataFrames, keyed by oemof tuples
     k: tuple
         oemof tuple for results processing
+    time_independent: collection of str
+        names of variables that are known to be scalars
     """
     try:
         condition = df_dict[k][:-1].isnull().any()
+        condition |= condition.index.isin(time_independent)
         scalars = df_dict[k].loc[:, condition].dropna().iloc[0]
         sequences = df_dict[k].loc[:, ~condition]
         return {"scalars": scalars, "sequences": sequences}
@@ -296,7 +316,11 @@ def results(model, remove_last_time_point=False):
     # Standard model results extraction
     if model.es.periods is None:
         result = _extract_standard_model_result(
-            df_dict, result, result_index, remove_last_time_point
+            df_dict,
+            result,
+            result_index,
+            remove_last_time_point,
+            get_time_independent_variables(model),
         )
         scalars_col = "scalars"
 
@@ -340,7 +364,11 @@ def results(model, remove_last_time_point=False):
 
 
 def _extract_standard_model_result(
-    df_dict, result, result_index, remove_last_time_point
+    df_dict,
+    result,
+    result_index,
+    remove_last_time_point,
+    time_independent=(),
 ):
     """Extract and return the results of a standard model
 
@@ -360,6 +388,8 @@ def _extract_standard_model_result(
         timeindex to use for the results (derived from EnergySystem)
     remove_last_time_point : bool
         if True, remove the last time point
+    time_independent : collection of str
+        names of variables that are known to be scalars
 
     Returns
     -------
@@ -375,7 +405,9 @@ def _extract_standard_model_result(
                 columns="variable_name", values="value"
             )
             set_result_index(df_dict, k, result_index[:-1])
-            result[k] = divide_scalars_sequences(df_dict, k)
+            result[k] = divide_scalars_sequences(
+                df_dict, k, time_independent
+            )
     else:
         for k in df_dict:
             df_dict[k].set_index("timestep", inplace=True)
@@ -386,7 +418,9 @@ def _extract_standard_model_result(
             # last value of the numeric index.
             df_dict[k].loc[df_dict[k].index[-1] + 1, :] = np.nan
             set_result_index(df_dict, k, result_index)
-            result[k] = divide_scalars_sequences(df_dict, k)
+            result[k] = divide_scalars_sequences(
+                df_dict, k, time_independent
+            )
 
     return result
 
-- 
2.43.0


From 3be02b164d4dee02c2a5b094be6ae17cd459f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 34/65] fix: all keys of Results are contained

---
 src/oemof/solph/_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 6bed480..b70eedf 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -340,4 +340,4 @@ class Results:
             return rv
 
     def __contains__(self, key: Hashable) -> bool:
-        return key in self._solver_results or key in self._variables
+        return key in self.keys()
-- 
2.43.0


From 41986130c886fa60507405a9c6aa72bfc507b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 35/65] fix: value of flows that do not influence the problem

Such flows are not part of the problem given to the solver, so that their
missing value made Model.solve fail.
---
 src/oemof/solph/_models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 2d79c28..044a641 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -504,6 +504,14 @@ class Model(po.ConcreteModel):
             else:
                 raise RuntimeError(msg)
 
+        # Flows without any influence are not passed to the solver. They can
+        # have any value within their bounds.
+        for flow in self.flow.values():
+            if flow.value is None:
+                value = 0 if flow.ub is None else min(0, flow.ub)
+                value = value if flow.lb is None else max(value, flow.lb)
+                flow.set_value(value)
+
         return Results(self)
 
     def relax_problem(self):
-- 
2.43.0


From 3d4ea0fb2863be6b9e57df2c027a7963853675e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 36/65] fix: storage content in results of aggregated time
 series

Losses have to be taken from the time steps of the typical period, as in the
model, considering the length of the time steps.
---
 src/oemof/solph/processing.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 5a48eca..6147d1e 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -307,7 +307,11 @@ def results(model, remove_last_time_point=False):
             result_index = model.es.timeindex
 
     if model.es.tsa_parameters is not None:
-        df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
+        df_dict = _disaggregate_tsa_result(
+            df_dict,
+            model.es.tsa_parameters,
+            list(model.es.timeincrement),
+        )
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -501,7 +505,7 @@ def _extract_multi_period_model_result(
     return result
 
 
-def _disaggregate_tsa_result(df_dict, tsa_parameters):
+def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     """
     Disaggregate timeseries aggregated by TSAM
 
@@ -519,6 +523,8 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     tsa_parameters : list-of-dicts
         TSAM parameters holding order, occurrences and timsteps_per_period for
         each period
+    timeincrement : list
+        Length of the aggregated time steps, needed for storage losses
 
     Returns
     -------
@@ -583,7 +589,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     # Add storage SOC flows:
     for storage, soc in storages.items():
         flow_dict[(storage, None)] = _calculate_soc_from_inter_and_intra_soc(
-            soc, storage, tsa_parameters
+            soc, storage, tsa_parameters, timeincrement
         )
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
@@ -636,7 +642,9 @@ def _disaggregate_segmentation(
     return disaggregated_data
 
 
-def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
+def _calculate_soc_from_inter_and_intra_soc(
+    soc, storage, tsa_parameters, timeincrement
+):
     """Calculate resulting SOC from inter and intra SOC flows"""
     soc_frames = []
     i_offset = 0
@@ -646,7 +654,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
             inter_value = soc["inter"].iloc[i_offset + i]["value"]
             # Self-discharge has to be taken into account for calculating
             # inter SOC for each timestep in cluster
-            t0 = t_offset + i * tsa_period["timesteps"]
+            t0 = t_offset + k * tsa_period["timesteps"]
             # Add last timesteps of simulation in order to interpolate SOC for
             # last segment correctly:
             is_last_timestep = (
@@ -662,12 +670,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
                 pd.Series(
                     itertools.accumulate(
                         (
-                            (
-                                (1 - storage.loss_rate[t])
-                                ** tsa_period["segments"][(k, t - t0)]
-                                if "segments" in tsa_period
-                                else 1 - storage.loss_rate[t]
-                            )
+                            (1 - storage.loss_rate[t]) ** timeincrement[t]
                             for t in range(
                                 t0,
                                 t0 + timesteps - 1,
@@ -701,7 +704,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
 
             soc_frames.append(soc_frame)
         i_offset += len(tsa_period["order"])
-        t_offset += i_offset * tsa_period["timesteps"]
+        t_offset += tsa_period["timesteps"] * len(tsa_period["occurrences"])
     soc_ts = pd.concat(soc_frames)
 
     soc_ts["timestep"] = range(len(soc_ts))
-- 
2.43.0


From c65efcbd5de104915f62ba08c6b82ecffd420ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 37/65] fix: multiplexer variables in results of aggregated
 time series

Extraction of the results failed for storage_level_constraint.
---
 src/oemof/solph/processing.py | 45 ++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 6147d1e..167c79c 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -594,7 +594,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
         flow_dict[(multiplexer, None)] = _calculate_multiplexer_actives(
-            values, multiplexer, tsa_parameters
+            values, tsa_parameters
         )
     # Add periodic values (they get extracted in period extraction fct)
     for key, data in periodic_dict.items():
@@ -714,23 +714,30 @@ def _calculate_soc_from_inter_and_intra_soc(
     return interpolated_soc.iloc[:-1]
 
 
-def _calculate_multiplexer_actives(values, multiplexer, tsa_parameters):
+def _calculate_multiplexer_actives(values, tsa_parameters):
     """Calculate multiplexer actives"""
+    names = dict.fromkeys(
+        name for data in values.values() for name in data["variable_name"]
+    )
     actives_frames = []
-    for p, tsa_period in enumerate(tsa_parameters):
-        for i, k in enumerate(tsa_period["order"]):
-            timesteps = tsa_period["timesteps"]
-            actives_frames.append(
-                pd.DataFrame(
-                    values[(p, k)].iloc[0:timesteps], columns=["value"]
-                )
-            )
-    actives_frames_ts = pd.concat(actives_frames)
-    actives_frames_ts["variable_name"] = values[(p, k)][
-        "variable_name"
-    ].values[0]
-    actives_frames_ts["timestep"] = range(len(actives_frames_ts))
-    return actives_frames_ts
+    for name in names:
+        frames = []
+        for p, tsa_period in enumerate(tsa_parameters):
+            for k in tsa_period["order"]:
+                data = values[(p, k)]
+                frame = data[data["variable_name"] == name].iloc[
+                    0 : tsa_period["timesteps"]
+                ]
+                # Disaggregate segmentation
+                if "segments" in tsa_period:
+                    frame = _disaggregate_segmentation(
+                        frame, tsa_period["segments"], k
+                    )
+                frames.append(frame)
+        ts = pd.concat(frames).reset_index(drop=True).ffill()
+        ts["timestep"] = range(len(ts))
+        actives_frames.append(ts)
+    return pd.concat(actives_frames)
 
 
 def _get_storage_soc_flows_and_keys(flow_dict):
@@ -767,9 +774,9 @@ def _get_multiplexer_flows_and_keys(flow_dict):
     multiplexer = {}
     multiplexer_keys = []
     for oemof_tuple, data in flow_dict.items():
-        if oemof_tuple[1] is not None and not isinstance(oemof_tuple[1], int):
-            continue
-        if "multiplexer_active" in data["variable_name"].values[0]:
+        # Binary variables of the multiplexer are indexed by period and
+        # typical period.
+        if len(oemof_tuple) == 3 and isinstance(oemof_tuple[1], int):
             multiplexer.setdefault(oemof_tuple[0], {})
             multiplexer_keys.append(oemof_tuple)
             multiplexer[oemof_tuple[0]][
-- 
2.43.0


From ed140ca195c6da95fdde6467f4ee2ac58bd376fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 38/65] fix: keep last interval in results of aggregated time
 series

The index of disaggregated results does not contain the last time point, so
that remove_last_time_point removed the values of the last interval.
---
 src/oemof/solph/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 167c79c..6d67d7e 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -312,6 +312,8 @@ def results(model, remove_last_time_point=False):
             model.es.tsa_parameters,
             list(model.es.timeincrement),
         )
+        # The disaggregated index does not contain the last time point.
+        remove_last_time_point = False
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -478,7 +480,7 @@ def _extract_multi_period_model_result(
         sequences = df_dict[k].loc[
             :, [col for col in df_dict[k].columns if col not in period_cols]
         ]
-        if remove_last_time_point and not model.es.tsa_parameters:
+        if remove_last_time_point:
             # The timeindex might not contain the last time point.
             sequences = set_sequences_index(
                 sequences[: len(model.TIMESTEPS)],
-- 
2.43.0


From b8f719537303513c273398342537f99e592cb6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 39/65] fix: time index of disaggregated results without
 frequency

If the frequency of the timeindex is not set, days have been used.
---
 src/oemof/solph/processing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 6d67d7e..ba679ba 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -789,11 +789,15 @@ def _get_multiplexer_flows_and_keys(flow_dict):
 
 def _disaggregate_tsa_timeindex(period_index, tsa_parameters):
     """Disaggregate aggregated period timeindex by using TSA parameters"""
+    freq = period_index.freq
+    if freq is None:
+        # DatetimeIndex without a (known) frequency, avoid default (one day)
+        freq = period_index[1] - period_index[0]
     return pd.date_range(
         start=period_index[0],
         periods=tsa_parameters["timesteps_per_period"]
         * len(tsa_parameters["order"]),
-        freq=period_index.freq,
+        freq=freq,
     )
 
 
-- 
2.43.0


From 934e64df4f8ead228813dda830269e25e3d9731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 40/65] fix: results with duals of models with aggregated time
 series

---
 src/oemof/solph/processing.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index ba679ba..5a93ab7 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -353,7 +353,12 @@ def results(model, remove_last_time_point=False):
             duals = [
                 model.dual[model.BusBlock.balance[bus, t]] for _, t in timestep
             ]
-            if model.es.periods is None:
+            if model.es.tsa_parameters:
+                duals = _disaggregate_tsa_sequence(
+                    duals, model.es.tsa_parameters
+                )
+                df = pd.DataFrame({"duals": duals}, index=result_index)
+            elif model.es.periods is None:
                 df = pd.DataFrame({"duals": duals}, index=result_index[:-1])
             # TODO: Align with standard model
             else:
@@ -605,6 +610,25 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     return flow_dict
 
 
+def _disaggregate_tsa_sequence(values, tsa_parameters):
+    """Map values of aggregated to original time steps"""
+    disaggregated = []
+    offset = 0
+    for tsa_period in tsa_parameters:
+        for k in tsa_period["order"]:
+            for s in range(tsa_period["timesteps"]):
+                disaggregated.extend(
+                    [values[offset + k * tsa_period["timesteps"] + s]]
+                    * (
+                        tsa_period["segments"][(k, s)]
+                        if "segments" in tsa_period
+                        else 1
+                    )
+                )
+        offset += tsa_period["timesteps"] * len(tsa_period["occurrences"])
+    return disaggregated
+
+
 def _disaggregate_segmentation(
     df: pd.DataFrame,
     segments: Dict[Tuple[int, int], int],
-- 
2.43.0


From c9186ec4ff1ff04b38feefc44cb4ac43de8565e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 41/65] fix: access to Results of models with aggregated time
 series

---
 src/oemof/solph/_results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index b70eedf..ccedfde 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -151,6 +151,9 @@ class Results:
             # overwrite known indexes
             index_type = tuple(dataset.index_set().subsets())[-1].name
             match index_type:
+                case "TIMEPOINTS" | "TIMESTEPS" if self._model.TSAM_MODE:
+                    # Aggregated time steps have no position in time.
+                    rv.index = rv.index.get_level_values(-1)
                 case "TIMEPOINTS":
                     rv.index = self._timepoints()
                 case "TIMESTEPS":
-- 
2.43.0


From 28c66b618e02f2b5d3f2a39bc1caa9c96429e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 42/65] fix: weights of variable costs in results

The reported costs ignored the length of the time steps (or other weights
used in the objective) and failed for sequences longer than needed.
---
 src/oemof/solph/_results.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index ccedfde..364b50b 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -21,6 +21,8 @@ from pyomo.opt.results.container import ListContainer
 
 import oemof.solph
 
+from ._plumbing import valid_sequence
+
 
 class Results:
     """provides functionality for results processing
@@ -288,6 +290,15 @@ class Results:
         # extract the the optimized flow values
         flow_values = self.get("flow", pd.DataFrame())
 
+        # same weights as used in the objective
+        m = self._model
+        weighting = [
+            m.objective_weighting[t] * m.tsam_weighting[t] for t in m.TIMESTEPS
+        ]
+        if m.es.periods is not None:
+            for p, t in m.TIMEINDEX:
+                weighting[t] *= (1 + m.discount_rate) ** -m.es.periods_years[p]
+
         for i, o in self._model.FLOWS:
             # access the variable costs of each flow
             variable_costs = self._model.flows[i, o].variable_costs
@@ -295,8 +306,14 @@ class Results:
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
                 if col[0] == i and col[1] == o:
-                    opex = flow_values[col] * variable_costs
-                    df_opex[col] = opex
+                    if valid_sequence(variable_costs, len(weighting)):
+                        specific_costs = [
+                            variable_costs[t] * weight
+                            for t, weight in enumerate(weighting)
+                        ]
+                    else:
+                        specific_costs = 0
+                    df_opex[col] = flow_values[col] * specific_costs
 
         return df_opex
 
-- 
2.43.0


From aac450640af7aecc3df1587899b43d169d0ab5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 43/65] fix: charge offset in results only if there is an
 investment

---
 src/oemof/solph/_results.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 364b50b..8d9313f 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -246,7 +246,9 @@ class Results:
                             investment_costs = (
                                 self._model.flows[i, o].investment.ep_costs[0]
                                 * invest_size
-                                + self._model.flows[i, o].investment.offset[0]
+                                + self._calc_offset(
+                                    col, self._model.flows[i, o].investment
+                                )
                             )
 
                             # Save values to dictionary
@@ -271,7 +273,7 @@ class Results:
 
                             investment_costs = (
                                 node.investment.ep_costs[0] * invest_size
-                                + node.investment.offset[0]
+                                + self._calc_offset(col, node.investment)
                             )
 
                             # Save values to dictionary
@@ -283,6 +285,12 @@ class Results:
 
         return df_capex
 
+    def _calc_offset(self, col, investment):
+        """Offset costs, which only occur if there is an investment"""
+        if not investment.nonconvex:
+            return 0
+        return investment.offset[0] * self["invest_status"][col][0]
+
     def _calc_variable_costs(self):
         self._economy_calculation_waring()
         df_opex = pd.DataFrame()
-- 
2.43.0


From d65bfcd3c1956be758b8fe2887d01a809d4c4136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 44/65] fix: extract parameters of components with flows as
 attributes

---
 src/oemof/solph/processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 5a93ab7..2b76dd1 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -1007,6 +1007,10 @@ def __separate_attrs(
             elif isinstance(value, _FakeSequence):
                 com["scalars"][ckey] = value.value
                 del com["sequences"][ckey]
+            elif not isinstance(value, abc.Iterable):
+                # e.g. the flow in {bus: flow}
+                com["scalars"][ckey] = value
+                del com["sequences"][ckey]
             elif len(value) == 0:
                 del com["sequences"][ckey]
 
-- 
2.43.0


From 3d1006472a6f23d8dd09df6523c4c43ac29c96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 45/65] fix: extract parameters of different length

---
 src/oemof/solph/processing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 2b76dd1..71af3c5 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -993,9 +993,14 @@ def __separate_attrs(
         if exclude_none:
             remove_nones(com_data)
 
+        sequences = com_data["sequences"]
+        if len({len(s) for s in sequences.values()}) > 1:
+            # e.g. one value per interval and one value per point in time
+            sequences = {k: pd.Series(list(s)) for k, s in sequences.items()}
+
         com_data = {
             "scalars": pd.Series(com_data["scalars"]),
-            "sequences": pd.DataFrame(com_data["sequences"]),
+            "sequences": pd.DataFrame(sequences),
         }
         return com_data
 
-- 
2.43.0


From 70191f858d2f8e9a0420475128b41610fb2ead80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 46/65] fix: filter nodes by their flows

---
 src/oemof/solph/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/views.py b/src/oemof/solph/views.py
index 904838e..a3e78a2 100644
--- a/src/oemof/solph/views.py
+++ b/src/oemof/solph/views.py
@@ -182,9 +182,12 @@ def filter_nodes(results, option=NodeOption.All, exclude_busses=False):
     :obj:`set`
         A set of Nodes.
     """
-    node_from, node_to = map(lambda x: set(x) - {None}, zip(*results))
+    # results of a node itself, keyed by (node, None), are no flows
+    flows = [k for k in results if None not in k]
+    node_from = {k[0] for k in flows}
+    node_to = {k[1] for k in flows}
     if option == NodeOption.All:
-        nodes = node_from.union(node_to)
+        nodes = {n for k in results for n in k if n is not None}
     elif option == NodeOption.HasOutputs:
         nodes = node_from
     elif option == NodeOption.HasInputs:
-- 
2.43.0


From a69e9e840a470d3a11149df6a9feb09d7273bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 47/65] fix: leave length of scalar parameters open when
 building a model

---
 src/oemof/solph/_plumbing.py                    | 13 +++++++++++++
 src/oemof/solph/_results.py                     |  4 ++--
 src/oemof/solph/components/_generic_storage.py  | 12 ++++++------
 src/oemof/solph/flows/_investment_flow_block.py |  6 +++---
 src/oemof/solph/flows/_shared.py                | 10 +++++-----
 src/oemof/solph/flows/_simple_flow_block.py     | 14 +++++++-------
 6 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 908639a..50dc125 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -111,6 +111,19 @@ def valid_sequence(sequence, length: int) -> bool:
     return False
 
 
+def covers(sequence, length: int) -> bool:
+    """Checks if a sequence can be used for the given length.
+
+    Contrary to :func:`valid_sequence`, this does not set the length of an
+    object of class _FakeSequence, so that it can still be used for another
+    length afterwards.
+    """
+    if isinstance(sequence, _FakeSequence):
+        return sequence.size is None or sequence.size == length
+
+    return valid_sequence(sequence, length)
+
+
 class _FakeSequence:
     """Emulates a list whose length is not known in advance.
 
diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 8d9313f..f799fcb 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -21,7 +21,7 @@ from pyomo.opt.results.container import ListContainer
 
 import oemof.solph
 
-from ._plumbing import valid_sequence
+from ._plumbing import covers
 
 
 class Results:
@@ -314,7 +314,7 @@ class Results:
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
                 if col[0] == i and col[1] == o:
-                    if valid_sequence(variable_costs, len(weighting)):
+                    if covers(variable_costs, len(weighting)):
                         specific_costs = [
                             variable_costs[t] * weight
                             for t, weight in enumerate(weighting)
diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 66e2643..0fb8f84 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -40,8 +40,8 @@ from pyomo.environ import Var
 
 from oemof.solph._helpers import check_node_object_for_missing_attribute
 from oemof.solph._options import Investment
+from oemof.solph._plumbing import covers
 from oemof.solph._plumbing import sequence
-from oemof.solph._plumbing import valid_sequence
 from oemof.solph.flows import Flow
 
 
@@ -949,7 +949,7 @@ class GenericStorageBlock(ScalarBlock):
         fixed_costs = 0
 
         for n in self.STORAGES:
-            if valid_sequence(n.fixed_costs, len(m.PERIODS)):
+            if covers(n.fixed_costs, len(m.PERIODS)):
                 fixed_costs += sum(
                     n.nominal_storage_capacity * n.fixed_costs[pp]
                     for pp in range(m.es.end_year_of_optimization)
@@ -959,7 +959,7 @@ class GenericStorageBlock(ScalarBlock):
         storage_costs = 0
 
         for n in self.STORAGES:
-            if valid_sequence(n.storage_costs, len(m.TIMESTEPS)):
+            if covers(n.storage_costs, len(m.TIMESTEPS)):
                 # We actually want to iterate over all TIMEPOINTS except the
                 # 0th. As integers are used for the index, this is equicalent
                 # to iterating over the TIMESTEPS with one offset.
@@ -2370,7 +2370,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     period_investment_costs[p] += investment_costs_increment
 
             for n in self.INVESTSTORAGES:
-                if valid_sequence(n.investment.fixed_costs, len(m.PERIODS)):
+                if covers(n.investment.fixed_costs, len(m.PERIODS)):
                     lifetime = n.investment.lifetime
                     for p in m.PERIODS:
                         range_limit = min(
@@ -2386,7 +2386,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
 
             for n in self.EXISTING_INVESTSTORAGES:
-                if valid_sequence(n.investment.fixed_costs, len(m.PERIODS)):
+                if covers(n.investment.fixed_costs, len(m.PERIODS)):
                     lifetime = n.investment.lifetime
                     age = n.investment.age
                     range_limit = min(
@@ -2398,7 +2398,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     )
 
         for n in self.INVESTSTORAGES:
-            if valid_sequence(n.storage_costs, len(m.TIMESTEPS)):
+            if covers(n.storage_costs, len(m.TIMESTEPS)):
                 # We actually want to iterate over all TIMEPOINTS except the
                 # 0th. As integers are used for the index, this is equicalent
                 # to iterating over the TIMESTEPS with one offset.
diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index abebfee..80df4cb 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -30,7 +30,7 @@ from pyomo.core import Set
 from pyomo.core import Var
 from pyomo.core.base.block import ScalarBlock
 
-from oemof.solph._plumbing import valid_sequence
+from oemof.solph._plumbing import covers
 
 
 class InvestmentFlowBlock(ScalarBlock):
@@ -1009,7 +1009,7 @@ class InvestmentFlowBlock(ScalarBlock):
                     period_investment_costs[p] += investment_costs_increment
 
             for i, o in self.INVESTFLOWS:
-                if valid_sequence(
+                if covers(
                     m.flows[i, o].investment.fixed_costs, len(m.PERIODS)
                 ):
                     lifetime = m.flows[i, o].investment.lifetime
@@ -1025,7 +1025,7 @@ class InvestmentFlowBlock(ScalarBlock):
                         )
 
             for i, o in self.EXISTING_INVESTFLOWS:
-                if valid_sequence(
+                if covers(
                     m.flows[i, o].investment.fixed_costs, len(m.PERIODS)
                 ):
                     lifetime = m.flows[i, o].investment.lifetime
diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 0068594..05f5879 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -24,7 +24,7 @@ from pyomo.core import NonNegativeReals
 from pyomo.core import Set
 from pyomo.core import Var
 
-from oemof.solph._plumbing import valid_sequence
+from oemof.solph._plumbing import covers
 
 
 def sets_for_non_convex_flows(block, group):
@@ -553,7 +553,7 @@ def startup_costs(block):
         m = block.parent_block()
 
         for i, o in block.STARTUPFLOWS:
-            if valid_sequence(
+            if covers(
                 m.flows[i, o].nonconvex.startup_costs, len(m.TIMESTEPS)
             ):
                 startup_costs += sum(
@@ -580,7 +580,7 @@ def shutdown_costs(block):
         m = block.parent_block()
 
         for i, o in block.SHUTDOWNFLOWS:
-            if valid_sequence(
+            if covers(
                 m.flows[i, o].nonconvex.shutdown_costs,
                 len(m.TIMESTEPS),
             ):
@@ -608,7 +608,7 @@ def activity_costs(block):
         m = block.parent_block()
 
         for i, o in block.ACTIVITYCOSTFLOWS:
-            if valid_sequence(
+            if covers(
                 m.flows[i, o].nonconvex.activity_costs,
                 len(m.TIMESTEPS),
             ):
@@ -636,7 +636,7 @@ def inactivity_costs(block):
         m = block.parent_block()
 
         for i, o in block.INACTIVITYCOSTFLOWS:
-            if valid_sequence(
+            if covers(
                 m.flows[i, o].nonconvex.inactivity_costs,
                 len(m.TIMESTEPS),
             ):
diff --git a/src/oemof/solph/flows/_simple_flow_block.py b/src/oemof/solph/flows/_simple_flow_block.py
index 696b870..2d194a1 100644
--- a/src/oemof/solph/flows/_simple_flow_block.py
+++ b/src/oemof/solph/flows/_simple_flow_block.py
@@ -27,7 +27,7 @@ from pyomo.core import Set
 from pyomo.core import Var
 from pyomo.core.base.block import ScalarBlock
 
-from oemof.solph._plumbing import valid_sequence
+from oemof.solph._plumbing import covers
 
 
 class SimpleFlowBlock(ScalarBlock):
@@ -175,14 +175,14 @@ class SimpleFlowBlock(ScalarBlock):
         )
         # set upper bound of gradient variable
         for i, o, f in group:
-            if valid_sequence(
+            if covers(
                 m.flows[i, o].positive_gradient_limit, len(m.TIMESTEPS)
             ):
                 for t in m.TIMESTEPS:
                     self.positive_gradient[i, o, t].setub(
                         f.positive_gradient_limit[t] * f.nominal_capacity
                     )
-            if valid_sequence(
+            if covers(
                 m.flows[i, o].negative_gradient_limit, len(m.TIMESTEPS)
             ):
                 for t in m.TIMESTEPS:
@@ -440,7 +440,7 @@ class SimpleFlowBlock(ScalarBlock):
 
         if m.es.periods is None:
             for i, o in m.FLOWS:
-                if valid_sequence(
+                if covers(
                     m.flows[i, o].variable_costs, len(m.TIMESTEPS)
                 ):
                     for t in m.TIMESTEPS:
@@ -453,7 +453,7 @@ class SimpleFlowBlock(ScalarBlock):
 
         else:
             for i, o in m.FLOWS:
-                if valid_sequence(
+                if covers(
                     m.flows[i, o].variable_costs, len(m.TIMESTEPS)
                 ):
                     for p, t in m.TIMEINDEX:
@@ -480,7 +480,7 @@ class SimpleFlowBlock(ScalarBlock):
 
             # Fixed costs for units with limited lifetime
             for i, o in self.LIFETIME_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if covers(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime,
@@ -492,7 +492,7 @@ class SimpleFlowBlock(ScalarBlock):
                     )
 
             for i, o in self.LIFETIME_AGE_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if covers(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime - m.flows[i, o].age,
-- 
2.43.0


From 91fce52db6cbf081d4ec86fc0aaf0414c186d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 48/65] fix: do not change the given time index

---
 src/oemof/solph/_energy_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 9b80310..ce37aca 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -106,6 +106,8 @@ class EnergySystem(es.EnergySystem):
         if infer_last_interval is True and timeindex is not None:
             try:
                 if timeindex.freq is None:
+                    # (the index of the user is to be left as it is)
+                    timeindex = timeindex.copy()
                     timeindex.freq = pd.infer_freq(timeindex)
 
                 timeindex = timeindex.union(
-- 
2.43.0


From 51be34d03992a1ae40f79375825b9e44d3976bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 49/65] fix: do not change the given tsa_parameters

---
 src/oemof/solph/_energy_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index ce37aca..04f8011 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -198,6 +198,9 @@ class EnergySystem(es.EnergySystem):
                 # Set up tsa_parameters for single period:
                 tsa_parameters = [tsa_parameters]
 
+            # further entries are added to copies
+            tsa_parameters = [dict(params) for params in tsa_parameters]
+
             # Construct occurrences of typical periods
             if periods is not None:
                 for p in range(len(periods)):
-- 
2.43.0


From b5b14c9dc1d595b6aed5fd6042df2b2f4efd616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 50/65] fix: group nodes and flows anew for every model

---
 src/oemof/solph/_models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 044a641..038552d 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -162,6 +162,11 @@ class Model(po.ConcreteModel):
             "objective_weighting", self.timeincrement
         )
 
+        # Nodes might have been connected or flows might have been replaced
+        # after they have been sorted into groups.
+        self.es._groups = {}
+        self.es._first_ungrouped_node_index_ = 0
+
         self._constraint_groups = type(self).CONSTRAINT_GROUPS + kwargs.get(
             "constraint_groups", []
         )
-- 
2.43.0


From 1875ef7c5c165dd7312c545659a906ac55bcf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 51/65] fix: connections of nodes after restoring an energy
 system

---
 src/oemof/solph/_energy_system.py | 32 +++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 04f8011..c7081a6 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -252,6 +252,38 @@ class EnergySystem(es.EnergySystem):
         else:
             self.end_year_of_optimization = 1
 
+    def restore(self, *args, **kwargs):
+        """Restore an EnergySystem instance.
+
+        For the parameters see :meth:`oemof.network.EnergySystem.restore`.
+        """
+        msg = super().restore(*args, **kwargs)
+        self._rehash_nodes()
+        return msg
+
+    @classmethod
+    def from_file(cls, *args, **kwargs):
+        """Create an EnergySystem from a file.
+
+        For the parameters see :meth:`oemof.network.EnergySystem.from_file`.
+        """
+        energysystem = super().from_file(*args, **kwargs)
+        energysystem._rehash_nodes()
+        return energysystem
+
+    def _rehash_nodes(self):
+        """Nodes are found by their label. It can still be missing, when they
+        are put into a dictionary or a set while they are loaded.
+        """
+        self._groups = {}
+        self._first_ungrouped_node_index_ = 0
+        for node in self.nodes:
+            node._in_edges = {n for n in node._in_edges}
+            node._outputs.data = {n: f for n, f in node._outputs.data.items()}
+            for name, value in vars(node).items():
+                if type(value) is dict:
+                    setattr(node, name, {k: v for k, v in value.items()})
+
     def _extract_periods_years(self):
         """Map years in optimization to respective period based on time indices
 
-- 
2.43.0


From ac1b64f0e0338199e7c27d8adcda1d7002e598d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 52/65] fix: infer the frequency on a copy of the time index

---
 src/oemof/solph/_energy_system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index c7081a6..9ac341b 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -107,8 +107,9 @@ class EnergySystem(es.EnergySystem):
             try:
                 if timeindex.freq is None:
                     # (the index of the user is to be left as it is)
-                    timeindex = timeindex.copy()
-                    timeindex.freq = pd.infer_freq(timeindex)
+                    timeindex = pd.DatetimeIndex(
+                        timeindex, freq=pd.infer_freq(timeindex)
+                    )
 
                 timeindex = timeindex.union(
                     pd.date_range(
-- 
2.43.0


From 660613a00750db9e04e003e462a3edb60b7cced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 53/65] fix: values of an earlier solve may be out of bounds

---
 src/oemof/solph/_models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 038552d..dd59977 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -510,10 +510,12 @@ class Model(po.ConcreteModel):
                 raise RuntimeError(msg)
 
         # Flows without any influence are not passed to the solver. They can
-        # have any value within their bounds.
+        # have any value within their bounds, values of an earlier solve
+        # might be out of bounds by now.
         for flow in self.flow.values():
-            if flow.value is None:
-                value = 0 if flow.ub is None else min(0, flow.ub)
+            if flow.value is None or (flow.stale and not flow.fixed):
+                value = 0 if flow.value is None else flow.value
+                value = value if flow.ub is None else min(value, flow.ub)
                 value = value if flow.lb is None else max(value, flow.lb)
                 flow.set_value(value)
 
-- 
2.43.0


From d582fa896920ead95104b198509ee19f3249ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 54/65] fix: meta results of another model of the same energy
 system

---
 src/oemof/solph/processing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 71af3c5..cc9cb6f 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -872,18 +872,18 @@ def meta_results(om, undefined=False):
     for k1 in ["Problem", "Solver"]:
         k1 = k1.lower()
         meta_res[k1] = {}
-        for k2, v2 in om.es.results[k1][0].items():
+        for k2, v2 in om.solver_results[k1][0].items():
             try:
-                if str(om.es.results[k1][0][k2]) == "<undefined>":
+                if str(om.solver_results[k1][0][k2]) == "<undefined>":
                     if undefined:
-                        meta_res[k1][k2] = str(om.es.results[k1][0][k2])
+                        meta_res[k1][k2] = str(om.solver_results[k1][0][k2])
                 else:
-                    meta_res[k1][k2] = om.es.results[k1][0][k2]
+                    meta_res[k1][k2] = om.solver_results[k1][0][k2]
             except TypeError:
                 if undefined:
                     msg = "Cannot fetch meta results of type {0}"
                     meta_res[k1][k2] = msg.format(
-                        type(om.es.results[k1][0][k2])
+                        type(om.solver_results[k1][0][k2])
                     )
     meta_res["problem"]["MIPGap"] = abs(
         meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-- 
2.43.0


From 421824904ee533c109a79ac39fbff749c3202081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 55/65] fix: MIP gap of meta results if bounds are zero or
 unknown

---
 src/oemof/solph/processing.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index cc9cb6f..55dcaeb 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -885,15 +885,19 @@ def meta_results(om, undefined=False):
                     meta_res[k1][k2] = msg.format(
                         type(om.solver_results[k1][0][k2])
                     )
-    meta_res["problem"]["MIPGap"] = abs(
-        meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-    ) / (
-        abs(
-            meta_res["problem"]["Upper bound"]
-            + meta_res["problem"]["Lower bound"]
-        )
-        / 2
-    )
+    upper = meta_res["problem"].get("Upper bound")
+    lower = meta_res["problem"].get("Lower bound")
+    if upper is not None and lower is not None:
+        if upper == lower:
+            meta_res["problem"]["MIPGap"] = 0.0
+        elif upper == -lower:
+            meta_res["problem"]["MIPGap"] = float("inf")
+        else:
+            meta_res["problem"]["MIPGap"] = abs(upper - lower) / (
+                abs(upper + lower) / 2
+            )
+    elif undefined:
+        meta_res["problem"]["MIPGap"] = "<undefined>"
     return meta_res
 
 
-- 
2.43.0


From 894af96201f408e88f0fa6f5134c7cfb0b7e2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 56/65] fix: flow checks only considered the first value of
 sequences

---
 src/oemof/solph/flows/_flow.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index a293666..91932aa 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -326,18 +326,22 @@ class Flow(Edge):
         }
         if self.investment is None and self.nominal_capacity is None:
             for attr in need_nominal_capacity:
-                if isinstance(getattr(self, attr), Iterable):
-                    the_attr = getattr(self, attr)[0]
+                the_attr = getattr(self, attr)
+                default = need_nominal_capacity_defaults[attr]
+                if isinstance(the_attr, np.ndarray):
+                    is_default = (the_attr == default).all()
+                elif isinstance(the_attr, Iterable):
+                    is_default = the_attr[0] == default
                 else:
-                    the_attr = getattr(self, attr)
-                if the_attr != need_nominal_capacity_defaults[attr]:
+                    is_default = the_attr == default
+                if not is_default:
                     raise AttributeError(
                         f"If {attr} is set in a flow, "
                         "nominal_capacity must be set as well."
                     )
 
         if self.nominal_capacity is not None and not math.isfinite(
-            self.maximum[0]
+            self.maximum.max()
         ):
             raise ValueError(infinite_error_msg.format("maximum"))
 
-- 
2.43.0


From 132ac8cdbb024ff80a9620cd73433eca86ede22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 57/65] fix: array as minimum of a flow that is set to be
 bidirectional

---
 src/oemof/solph/flows/_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index 91932aa..6a65b0d 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -297,7 +297,7 @@ class Flow(Edge):
             "set a negative value for `minimum` instead."
             warn(msg, FutureWarning)
             self.bidirectional = True
-            if minimum == 0:
+            if np.ndim(minimum) == 0 and minimum == 0:
                 minimum = -1
         # --- END
         else:
-- 
2.43.0


From 1f5b96d0234aca22f1b91ceef403d4d006a1a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 58/65] fix: investment checks only considered the first period
 or time step

---
 src/oemof/solph/_options.py                    | 6 ++++--
 src/oemof/solph/components/_generic_storage.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index aebd550..858dd5e 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -151,7 +151,7 @@ class Investment:
 
     def _check_invest_attributes_maximum(self):
         """Throw an error if maximum is infinite and nonconvex is True"""
-        if (self.maximum[0] == float("+inf")) and (self.nonconvex is True):
+        if (self.maximum.max() == float("+inf")) and (self.nonconvex is True):
             e2 = (
                 "Please provide a maximum investment value in case of"
                 " nonconvex investment (nonconvex=True), which is in the"
@@ -164,7 +164,9 @@ class Investment:
 
     def _check_invest_attributes_offset(self):
         """Throw an error if offset is given without nonconvex=True"""
-        if (self.offset[0] != 0) and (self.nonconvex is False):
+        if (self.offset.min() != 0 or self.offset.max() != 0) and (
+            self.nonconvex is False
+        ):
             e3 = (
                 "If `nonconvex` is `False`, the `offset` parameter will be"
                 " ignored."
diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 0fb8f84..eeb8ea8 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1474,7 +1474,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     "For a multi-period investment model, fixed absolute"
                     " losses are not supported. Please remove parameter."
                 )
-                if n.fixed_losses_absolute[0] != 0:
+                if n.fixed_losses_absolute.max() != 0:
                     raise ValueError(error_fixed_absolute_losses)
                 error_initial_storage_level = (
                     "For a multi-period model, initial_storage_level is"
-- 
2.43.0


From 2fb4fcb498ec4e5abb399830b004abedf6c1290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:47 +0000
Subject: [PATCH 59/65] fix: only the first values of coefficients of an
 OffsetConverter were used if the maximum is a scalar

---
 src/oemof/solph/components/_offset_converter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 0c63096..ef3b187 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -282,10 +282,12 @@ class OffsetConverter(Node):
 
         input_bus = list(self.inputs.values())[0].input
         for flow in self.outputs.values():
-            if flow.maximum.size is not None:
-                target_len = flow.maximum.size
-            else:
-                target_len = 1
+            sizes = [
+                s.size
+                for s in (flow.maximum, flow.minimum, *coefficients)
+                if s.size is not None
+            ]
+            target_len = max(sizes, default=1)
 
             slope = []
             offset = []
-- 
2.43.0


From 62df130fc9d127f0974eac818b3e14e550b8754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:13 +0000
Subject: [PATCH 60/65] fix: equating flows for a second time dropped the
 equations of the first time

---
 src/oemof/solph/_plumbing.py                | 12 ++++++++++++
 src/oemof/solph/constraints/equate_flows.py |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 50dc125..986a397 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -207,3 +207,15 @@ class _FakeSequence:
     @property
     def value(self):
         return self._value
+
+
+def free_component_name(model, name):
+    """Return the name if no component of the model is called that way yet.
+    Otherwise, a number is appended.
+    """
+    number = 1
+    free_name = name
+    while model.component(free_name) is not None:
+        number += 1
+        free_name = f"{name}_{number}"
+    return free_name
diff --git a/src/oemof/solph/constraints/equate_flows.py b/src/oemof/solph/constraints/equate_flows.py
index 84b20d8..5d45e2d 100644
--- a/src/oemof/solph/constraints/equate_flows.py
+++ b/src/oemof/solph/constraints/equate_flows.py
@@ -10,6 +10,8 @@ SPDX-License-Identifier: MIT
 
 from pyomo import environ as po
 
+from oemof.solph._plumbing import free_component_name
+
 
 def equate_flows(model, flows1, flows2, factor1=1, name="equate_flows"):
     r"""
@@ -35,12 +37,14 @@ def equate_flows(model, flows1, flows2, factor1=1, name="equate_flows"):
     factor1 : numeric, default=1
         Factor to define the proportion between the two groups.
     name : str, default='equate_flows'
-        Name for the equation e.g. in the LP file.
+        Name for the equation e.g. in the LP file. If the name is already in
+        use, a number is appended, so that existing equations stay in place.
 
     Returns
     -------
     the updated model.
     """
+    name = free_component_name(model, name)
 
     def _equate_flow_groups_rule(m):
         for ts in m.TIMESTEPS:
-- 
2.43.0


From b72e7f1c0ca4f5d69fec0c54ac1cf075d5531105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:13 +0000
Subject: [PATCH 61/65] fix: a second integral limit with the default name
 dropped the first one

---
 src/oemof/solph/constraints/integral_limit.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 3f2b30d..a8c4a27 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -17,6 +17,7 @@ import warnings
 
 from pyomo import environ as po
 
+from oemof.solph._plumbing import free_component_name
 from oemof.solph._plumbing import sequence
 
 
@@ -142,7 +143,7 @@ def generic_integral_limit(
     """
     flows = _check_and_set_flows(om, flows, keyword)
     if limit_name is None:
-        limit_name = "integral_limit_" + keyword
+        limit_name = free_component_name(om, "integral_limit_" + keyword)
 
     if limit is not None:
         msg = (
@@ -260,10 +261,14 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
         return expr <= limit[p]
 
-    om.periodical_integral_limit = po.Constraint(
-        om.PERIODS,
-        rule=_periodical_integral_limit_rule,
-        name=limit_name + "_constraint",
+    setattr(
+        om,
+        free_component_name(om, "periodical_integral_limit"),
+        po.Constraint(
+            om.PERIODS,
+            rule=_periodical_integral_limit_rule,
+            name=limit_name + "_constraint",
+        ),
     )
 
     return om
-- 
2.43.0


From 26f0466df5c530c3522618cf746d6bd288c2ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:17 +0000
Subject: [PATCH 62/65] fix: on/off flows with a negative maximum could not be
 switched off

---
 src/oemof/solph/_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index dd59977..a21187c 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -371,10 +371,14 @@ class Model(po.ConcreteModel):
                         self.flow[o, i, t].fix()
                 else:
                     for t in self.TIMESTEPS:
-                        self.flow[o, i, t].setub(
+                        upper = (
                             self.flows[o, i].maximum[t]
                             * self.flows[o, i].nominal_capacity
                         )
+                        if self.flows[o, i].nonconvex:
+                            # zero as long as the flow is switched off
+                            upper = max(upper, 0)
+                        self.flow[o, i, t].setub(upper)
                     if not self.flows[o, i].nonconvex:
                         for t in self.TIMESTEPS:
                             self.flow[o, i, t].setlb(
-- 
2.43.0


From 3d58276a8cddb3ca95e125870f6774de315497ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:44 +0000
Subject: [PATCH 63/65] fix: classes derived from Bus, Investment and
 EnergySystem were not recognised in views and parameters

---
 src/oemof/solph/processing.py | 6 ++++--
 src/oemof/solph/views.py      | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 55dcaeb..14ee576 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -27,12 +27,14 @@ from typing import Tuple
 
 import numpy as np
 import pandas as pd
+from oemof.network.energy_system import EnergySystem
 from oemof.network.network import Entity
 from pyomo.core.base.piecewise import IndexedPiecewise
 from pyomo.core.base.var import Var
 
 from oemof.solph.components._generic_storage import GenericStorage
 
+from ._options import Investment
 from ._plumbing import _FakeSequence
 from .helpers import flatten
 
@@ -955,7 +957,7 @@ def __separate_attrs(
 
             # Iterate trough investment and add scalars and sequences with
             # "investment" prefix to component data:
-            if attr_value.__class__.__name__ == "Investment":
+            if isinstance(attr_value, Investment):
                 invest_data = detect_scalars_and_sequences(attr_value)
                 scalars.update(
                     {
@@ -1032,7 +1034,7 @@ def __separate_attrs(
                 del com["sequences"][ckey]
 
     # Check if system is es or om:
-    if system.__class__.__name__ == "EnergySystem":
+    if isinstance(system, EnergySystem):
         components = system.flows() if get_flows else system.nodes
     else:
         components = system.flows if get_flows else system.es.nodes
diff --git a/src/oemof/solph/views.py b/src/oemof/solph/views.py
index a3e78a2..eaf1ee1 100644
--- a/src/oemof/solph/views.py
+++ b/src/oemof/solph/views.py
@@ -21,6 +21,7 @@ from enum import Enum
 
 import pandas as pd
 
+from oemof.solph.buses import Bus
 from oemof.solph.processing import convert_keys_to_strings
 
 NONE_REPLACEMENT_STR = "_NONE_"
@@ -200,7 +201,7 @@ def filter_nodes(results, option=NodeOption.All, exclude_busses=False):
         raise ValueError('Invalid node option "' + str(option) + '"')
 
     if exclude_busses:
-        return {n for n in nodes if not n.__class__.__name__ == "Bus"}
+        return {n for n in nodes if not isinstance(n, Bus)}
     else:
         return nodes
 
-- 
2.43.0


From 4254b4a13b0967ed35b7358977604e941578a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:40 +0000
Subject: [PATCH 64/65] fix: storage investments over several periods failed
 with a discount rate of zero

---
 src/oemof/solph/_helpers.py                   |  8 ++++++++
 .../solph/components/_generic_storage.py      | 19 ++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/oemof/solph/_helpers.py b/src/oemof/solph/_helpers.py
index b3d0f0e..be4a688 100644
--- a/src/oemof/solph/_helpers.py
+++ b/src/oemof/solph/_helpers.py
@@ -21,6 +21,7 @@ from warnings import warn
 
 import pandas as pd
 from oemof.tools import debugging
+from oemof.tools import economics
 
 
 def check_node_object_for_missing_attribute(obj, attribute):
@@ -50,6 +51,13 @@ def warn_if_missing_attribute(obj, attribute):
     )
 
 
+def interest_annuity(capex, n, wacc):
+    """Annuity of an investment, which is also defined without interest"""
+    if wacc == 0:
+        return capex / n
+    return economics.annuity(capex=capex, n=n, wacc=wacc)
+
+
 def create_time_index(
     year: int = None,
     interval: float = 1,
diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index eeb8ea8..d3c5d0c 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -28,7 +28,6 @@ from warnings import warn
 import numpy as np
 from oemof.network import Node
 from oemof.tools import debugging
-from oemof.tools import economics
 from pyomo.core.base.block import ScalarBlock
 from pyomo.environ import Binary
 from pyomo.environ import BuildAction
@@ -39,6 +38,7 @@ from pyomo.environ import Set
 from pyomo.environ import Var
 
 from oemof.solph._helpers import check_node_object_for_missing_attribute
+from oemof.solph._helpers import interest_annuity
 from oemof.solph._options import Investment
 from oemof.solph._plumbing import covers
 from oemof.solph._plumbing import sequence
@@ -1351,7 +1351,8 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
     They are retrieved, using oemof.tools.economics annuity function. The
     interest rate :math:`ir` for the annuity is defined as weighted
-    average costs of capital (wacc) and assumed constant over time.
+    average costs of capital (wacc) and assumed constant over time. Without
+    interest, the costs are spread evenly over the lifetime.
 
     The overall summed cost expressions for all *InvestmentFlowBlock* objects
     can be accessed by
@@ -2297,7 +2298,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     )
                     interest = m.discount_rate
                 for p in m.PERIODS:
-                    annuity = economics.annuity(
+                    annuity = interest_annuity(
                         capex=n.investment.ep_costs[p],
                         n=lifetime,
                         wacc=interest,
@@ -2306,7 +2307,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         m.es.end_year_of_optimization - m.es.periods_years[p],
                         lifetime,
                     )
-                    present_value_factor = 1 / economics.annuity(
+                    present_value_factor = 1 / interest_annuity(
                         capex=1, n=duration, wacc=interest
                     )
                     investment_costs_increment = (
@@ -2337,7 +2338,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     )
                     interest = m.discount_rate
                 for p in m.PERIODS:
-                    annuity = economics.annuity(
+                    annuity = interest_annuity(
                         capex=n.investment.ep_costs[p],
                         n=lifetime,
                         wacc=interest,
@@ -2346,7 +2347,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         m.es.end_year_of_optimization - m.es.periods_years[p],
                         lifetime,
                     )
-                    present_value_factor = 1 / economics.annuity(
+                    present_value_factor = 1 / interest_annuity(
                         capex=1, n=duration, wacc=interest
                     )
                     investment_costs_increment = (
@@ -2469,17 +2470,17 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 remaining_lifetime = lifetime - (
                     end_year_of_optimization - m.es.periods_years[p]
                 )
-                remaining_annuity = economics.annuity(
+                remaining_annuity = interest_annuity(
                     capex=n.investment.ep_costs[-1],
                     n=remaining_lifetime,
                     wacc=interest,
                 )
-                original_annuity = economics.annuity(
+                original_annuity = interest_annuity(
                     capex=n.investment.ep_costs[p],
                     n=remaining_lifetime,
                     wacc=interest,
                 )
-                present_value_factor_remaining = 1 / economics.annuity(
+                present_value_factor_remaining = 1 / interest_annuity(
                     capex=1, n=remaining_lifetime, wacc=interest
                 )
                 convex_investment_costs = (
-- 
2.43.0


From 95e8ec4064d2483543d562ff837ec5c27473cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:05 +0000
Subject: [PATCH 65/65] fix: equate_flows only worked for the first time step
 when iterators were given

---
 src/oemof/solph/constraints/equate_flows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oemof/solph/constraints/equate_flows.py b/src/oemof/solph/constraints/equate_flows.py
index 5d45e2d..7025146 100644
--- a/src/oemof/solph/constraints/equate_flows.py
+++ b/src/oemof/solph/constraints/equate_flows.py
@@ -45,6 +45,9 @@ def equate_flows(model, flows1, flows2, factor1=1, name="equate_flows"):
     the updated model.
     """
     name = free_component_name(model, name)
+    # iterators can only be used for one time step
+    flows1 = list(flows1)
+    flows2 = list(flows2)
 
     def _equate_flow_groups_rule(m):
         for ts in m.TIMESTEPS:
-- 
2.43.0


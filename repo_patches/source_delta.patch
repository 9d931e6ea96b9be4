From 07555c1ead04566d00c157cd472dc7da3057be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 01/21] fix: GenericRigidBodySystem releases its matrices on
 destruction

Destroying a system that had been stepped hit the assert in ~Matrix (and
leaked everything with asserts off).
---
 src/generic_rigid_body_system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..994e824 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,24 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.J_T.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From 8fa8475d953a6aa67c79b58cd256721b3bdb355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 02/21] fix: SystemState::destroy releases zero-sized arrays
 too

resize() allocates every array even when a count is zero; a state with
bodies but no constraints (or the reverse) leaked the empty ones.
---
 src/system_state.cpp | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..5762d2e 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -106,32 +106,28 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
-        freeArray(a_theta);
-        freeArray(v_theta);
-        freeArray(theta);
-
-        freeArray(a_x);
-        freeArray(a_y);
-        freeArray(v_x);
-        freeArray(v_y);
-        freeArray(p_x);
-        freeArray(p_y);
-
-        freeArray(f_x);
-        freeArray(f_y);
-        freeArray(t);
-
-        freeArray(m);
-    }
+    freeArray(indexMap);
 
-    if (n_c > 0) {
-        freeArray(indexMap);
+    freeArray(a_theta);
+    freeArray(v_theta);
+    freeArray(theta);
 
-        freeArray(r_x);
-        freeArray(r_y);
-        freeArray(r_t);
-    }
+    freeArray(a_x);
+    freeArray(a_y);
+    freeArray(v_x);
+    freeArray(v_y);
+    freeArray(p_x);
+    freeArray(p_y);
+
+    freeArray(f_x);
+    freeArray(f_y);
+    freeArray(t);
+
+    freeArray(m);
+
+    freeArray(r_x);
+    freeArray(r_y);
+    freeArray(r_t);
 
     n = 0;
     n_c = 0;
-- 
2.43.0


From 2e7985b677e4da933c5e21325f6bcffdded1bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 03/21] fix: SystemState::resize always adopts the requested
 size

It only ever grew, so after removing a body state->n kept counting bodies
that no longer exist (generators that iterate over the state then acted on
stale entries), and copying a smaller state into a larger buffer read past
the end of the source.
---
 src/system_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index 5762d2e..712a460 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -72,7 +72,7 @@ void atg_scs::SystemState::copy(const SystemState *state) {
 }
 
 void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
-    if (n >= bodyCount && n_c >= constraintCount) {
+    if (n == bodyCount && n_c == constraintCount) {
         return;
     }
 
-- 
2.43.0


From e7320612b70bf033caef1275a9e0020d097f7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 04/21] fix: SystemState::copy copies constraint data of a
 state without bodies

The early return for zero bodies skipped the per-constraint arrays, and
memcpy was handed null pointers when nothing was allocated.
---
 src/system_state.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index 712a460..e288cc3 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -43,11 +43,17 @@ atg_scs::SystemState::~SystemState() {
 void atg_scs::SystemState::copy(const SystemState *state) {
     resize(state->n, state->n_c);
 
-    if (state->n == 0) {
-        return;
+    if (n_c > 0) {
+        std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);
+
+        std::memcpy((void *)r_x, (void *)state->r_x, sizeof(double) * n_c * 2);
+        std::memcpy((void *)r_y, (void *)state->r_y, sizeof(double) * n_c * 2);
+        std::memcpy((void *)r_t, (void *)state->r_t, sizeof(double) * n_c * 2);
     }
 
-    std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);
+    if (n == 0) {
+        return;
+    }
 
     std::memcpy((void *)a_theta, (void *)state->a_theta, sizeof(double) * n);
     std::memcpy((void *)v_theta, (void *)state->v_theta, sizeof(double) * n);
@@ -65,10 +71,6 @@ void atg_scs::SystemState::copy(const SystemState *state) {
     std::memcpy((void *)t, (void *)state->t, sizeof(double) * n);
 
     std::memcpy((void *)m, (void *)state->m, sizeof(double) * n);
-
-    std::memcpy((void *)r_x, (void *)state->r_x, sizeof(double) * n_c * 2);
-    std::memcpy((void *)r_y, (void *)state->r_y, sizeof(double) * n_c * 2);
-    std::memcpy((void *)r_t, (void *)state->r_t, sizeof(double) * n_c * 2);
 }
 
 void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
-- 
2.43.0


From 422fc3eca74d20f9f0f603826bf332f4c929d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 05/21] fix: Spring does not apply force to an unregistered end

The positions of unregistered ends are handled, but their force was
accumulated at index -1 of the state arrays.
---
 src/spring.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
-- 
2.43.0


From c328a60cb45dc7c20d8cfcb8e4e5a6e39c22e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 06/21] fix: constraint forces are not accumulated for
 unregistered bodies

The rows of a constraint naming an unregistered body are assembled without
that body, but its reaction was written to index -1 of the accelerations.
---
 src/generic_rigid_body_system.cpp       | 2 ++
 src/optimized_nsv_rigid_body_system.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 994e824..ebe383b 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -235,6 +235,8 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..aca5a20 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -250,6 +250,8 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From 38ce2ddd0531b2b579e1266b6369b7eb64b17709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 07/21] fix: GenericRigidBodySystem reports the forces of the
 right row and body

Reactions are stored two per row; the report read them with stride one.
---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ebe383b..003b5bc 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -97,9 +97,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From c1e15756af618286ac6768374da27422ef4b35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 08/21] fix: RK4 stages advance positions with the previous
 stage's velocity

Velocities were overwritten before the positions used them, which reduced
the integrator to second order.
---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..ffcc176 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -26,36 +26,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From 8f368db446f4f8ead6dd8ccc23a66ca0c9f2c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 09/21] fix: RK4 reports the stage-weighted average constraint
 forces

The accumulator started from the (stale or never written) reactions of the
previous step, covered half of the two-per-row entries, and scaled forces
by the step length.
---
 src/rk4_ode_solver.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index ffcc176..d11dc6e 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,12 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    for (int i = 0; i < m_accumulator.n_c * 2; ++i) {
+        m_accumulator.r_x[i] = 0.0;
+        m_accumulator.r_y[i] = 0.0;
+        m_accumulator.r_t[i] = 0.0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +94,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < system->n_c * 2; ++i) {
+        m_accumulator.r_x[i] += system->r_x[i] * stageWeight / 6.0;
+        m_accumulator.r_y[i] += system->r_y[i] * stageWeight / 6.0;
+        m_accumulator.r_t[i] += system->r_t[i] * stageWeight / 6.0;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +110,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < system->n_c * 2; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From 9994ac49ae802908044956702f6a9a0343903c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 10/21] fix: Constraint clears all of its body pointers

Only sizeof(int) bytes per pointer were cleared.
---
 src/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index e7549f3..765332a 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -12,7 +12,7 @@ atg_scs::Constraint::Constraint(int constraintCount, int bodyCount) {
 
     m_index = -1;
 
-    memset(m_bodies, 0, sizeof(int) * MaxBodyCount);
+    memset(m_bodies, 0, sizeof(RigidBody *) * MaxBodyCount);
 
     for (int i = 0; i < MaxConstraintCount; ++i) {
         for (int j = 0; j < MaxBodyCount; ++j) {
-- 
2.43.0


From eaaa66f15bb7db3f14bbc76be3c923a579492db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 11/21] fix: GaussSeidelSleSolver::solve starts and stops
 correctly

Without a previous result it iterated from unwritten memory, and its change
measure (unlike that of solveWithLimits) ignored negative values and
decreasing magnitudes, so it reported success on unsolved systems.
---
 src/gauss_seidel_sle_solver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..86fe691 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -26,7 +26,9 @@ bool atg_scs::GaussSeidelSleSolver::solve(
 {
     const int n = right.getHeight();
     
-    result->resize(1, n);
+    if (result->getHeight() != n) {
+        result->initialize(1, n);
+    }
 
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
@@ -108,8 +110,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From f4761cd8aa742da26ed2a12fd113dd8d14b37ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 12/21] fix: iterative solvers do not report success with NaN
 in the result

Every comparison with NaN is false, so a solve that broke down (for example
on a row with zero effective mass) was taken for converged.
---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 src/gauss_seidel_sle_solver.cpp       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 86fe691..d22f621 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -112,6 +112,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
+        if (std::isnan(delta)) return delta;
+
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 9df435936cff26372542ae95cb8dc302b27cd1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 13/21] fix: GaussianEliminationSleSolver sizes the result of
 an empty system

After the last constraint of a system was removed the multipliers kept their
old size and the next step aborted in SparseMatrix::leftScale.
---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..daa9ac4 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
-- 
2.43.0


From 67c079b0848f8b6e8d1bd90de44105c9673748f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 14/21] fix: Matrix::set, dot and vectorMagnitudeSquared honour
 the row order

After fastRowSwap rows are no longer stored consecutively: set(data) filled
the wrong rows and the vector products read past the end of the buffer.
---
 src/matrix.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..54b3aec 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,11 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        for (int j = 0; j < m_width; ++j) {
+            m_matrix[i][j] = data[i * m_width + j];
+        }
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
@@ -231,7 +235,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -244,7 +248,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From fa31d4080fa5b5ad4dce4142b98af82f33bca8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 15/21] fix: Matrix::initialize does not memset a null buffer

An empty matrix has no buffer; passing null to memset is undefined.
---
 src/matrix.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 54b3aec..8666fb5 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -34,8 +34,7 @@ void atg_scs::Matrix::initialize(int width, int height, double value) {
 }
 
 void atg_scs::Matrix::initialize(int width, int height) {
-    resize(width, height);
-    memset(m_data, 0, sizeof(double) * width * height);
+    initialize(width, height, 0.0);
 }
 
 void atg_scs::Matrix::resize(int width, int height) {
-- 
2.43.0


From b1c1ef15dce977408378492c9215a179d64eb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 16/21] fix: SparseMatrix can be used again after destroy()

The remembered capacity survived the buffers, so the next resize wrote
through null pointers.
---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..01dda4b 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -69,6 +69,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From fd9b9b6dba18278fc64f44331705241ab9662d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 17/21] fix: SparseMatrix addresses any number of blocks

Block indices were stored in 8 bits with 0xFF meaning empty: in worlds with
more than 255 bodies constraints acted on the wrong bodies or on none.
---
 include/sparse_matrix.h | 45 +++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 01dda4b..9cc8248 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -30,7 +30,10 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+
+                for (int i = 0; i < m_height * T_Entries; ++i) {
+                    m_blockData[i] = EmptyBlock;
+                }
             }
 
             void resize(int width, int height) {
@@ -44,7 +47,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new int[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -77,8 +80,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -93,8 +96,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -104,7 +107,7 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, int index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
                 assert(index < m_width);
@@ -132,7 +135,7 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = EmptyBlock;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -147,11 +150,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const int block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == EmptyBlock) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -180,8 +183,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + k];
+                        if (block == EmptyBlock) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -204,8 +207,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const int block = m_blockData[i * T_Entries + k];
+                            if (block == EmptyBlock) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -225,8 +228,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == EmptyBlock) continue;
 
                         target->setBlock(i, j, index);
 
@@ -249,8 +252,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == EmptyBlock) continue;
 
                         target->setBlock(i, j, index);
 
@@ -269,9 +272,11 @@ namespace atg_scs {
             scs_force_inline int getHeight() const { return m_height; }
 
         protected:
+            static constexpr int EmptyBlock = -1;
+
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            int *m_blockData;
 
             int m_width;
             int m_height;
-- 
2.43.0


From e91d7735538f4ecce86f290655ba6830fc4241ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 18/21] fix: SparseMatrix::initialize clears the entries of
 empty blocks

Scaling leaves empty blocks of the target unwritten while the systems read
them as reactions, so unwritten memory was reported as constraint force.
---
 include/sparse_matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 9cc8248..fdb4890 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -34,6 +34,10 @@ namespace atg_scs {
                 for (int i = 0; i < m_height * T_Entries; ++i) {
                     m_blockData[i] = EmptyBlock;
                 }
+
+                for (int i = 0; i < m_height * T_Entries * T_Stride; ++i) {
+                    m_data[i] = 0.0;
+                }
             }
 
             void resize(int width, int height) {
-- 
2.43.0


From b3cace7486a07a990f89ad4a969fc111b2fce097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 19/21] fix: RollingConstraint rolls without slipping for any
 radius and base rotation

The no-slip row equated the wheel's angle with distance times radius, and
used the absolute instead of the base-relative angle: correct only for unit
radius on a base that does not turn.
---
 src/rolling_constraint.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 9b37019..9f2ae9c 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -60,7 +60,7 @@ void atg_scs::RollingConstraint::calculate(
 
     const double s = delta_x * dx + delta_y * dy;
 
-    const double C0 = -q6 - s * m_radius;
+    const double C0 = -(q6 - q3) * m_radius - s;
     const double C1 = m_radius - (perp_x * delta_x + perp_y * delta_y);
 
     const double d_origin_x_dq3 = -sin_q3 * m_local_x - cos_q3 * m_local_y;
@@ -100,9 +100,9 @@ void atg_scs::RollingConstraint::calculate(
         (d_delta_y_dq3_dot * dy + d_delta_y_dq3 * dy_dot) +
         (delta_y_dot * d_dy_dq3 + delta_y * d_dy_dq3_dot);
 
-    output->J[0][0] = -ds_dq1 * m_radius;
-    output->J[0][1] = -ds_dq2 * m_radius;
-    output->J[0][2] = -ds_dq3 * m_radius;
+    output->J[0][0] = -ds_dq1;
+    output->J[0][1] = -ds_dq2;
+    output->J[0][2] = m_radius - ds_dq3;
 
     // C1 = m_radius + dy * delta_x - dx * delta_y
     output->J[1][0] = dy * d_delta_x_dq1;
@@ -111,17 +111,17 @@ void atg_scs::RollingConstraint::calculate(
         (d_dy_dq3 * delta_x + dy * d_delta_x_dq3) -
         (d_dx_dq3 * delta_y + dx * d_delta_y_dq3);
 
-    output->J[0][3] = -1 * dx * m_radius;
-    output->J[0][4] = -1 * dy * m_radius;
-    output->J[0][5] = -1;
+    output->J[0][3] = -1 * dx;
+    output->J[0][4] = -1 * dy;
+    output->J[0][5] = -m_radius;
 
     output->J[1][3] = dy * d_delta_x_dq4;
     output->J[1][4] = -dx * d_delta_y_dq5;
     output->J[1][5] = 0;
 
-    output->J_dot[0][0] = -ds_dq1_dot * m_radius;
-    output->J_dot[0][1] = -ds_dq2_dot * m_radius;
-    output->J_dot[0][2] = -ds_dq3_dot * m_radius;
+    output->J_dot[0][0] = -ds_dq1_dot;
+    output->J_dot[0][1] = -ds_dq2_dot;
+    output->J_dot[0][2] = -ds_dq3_dot;
 
     output->J_dot[1][0] = dy_dot * d_delta_x_dq1;
     output->J_dot[1][1] = -dx_dot * d_delta_y_dq2;
@@ -131,8 +131,8 @@ void atg_scs::RollingConstraint::calculate(
         (d_dx_dq3_dot * delta_y + d_dx_dq3 * delta_y_dot) -
         (dx_dot * d_delta_y_dq3 + dx * d_delta_y_dq3_dot);
 
-    output->J_dot[0][3] = -1 * dx_dot * m_radius;
-    output->J_dot[0][4] = -1 * dy_dot * m_radius;
+    output->J_dot[0][3] = -1 * dx_dot;
+    output->J_dot[0][4] = -1 * dy_dot;
     output->J_dot[0][5] = 0;
 
     output->J_dot[1][3] = dy_dot * d_delta_x_dq4;
-- 
2.43.0


From ad26203222f290418da3de258b49132fec9fecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 20/21] fix: ConjugateGradientSleSolver handles worlds without
 constraints

The systems' initial multipliers are 0x0; with no constraint rows they were
taken as a starting guess of the right size and tripped an assert.
---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 543f582..3abb9e2 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -34,7 +34,7 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
     m_Ap.resize(1, n);
     m_x.initialize(1, n);
 
-    if (previous != nullptr && previous->getHeight() == n) {
+    if (previous != nullptr && previous->getWidth() == 1 && previous->getHeight() == n) {
         m_x.set(previous);
     }
 
-- 
2.43.0


From 269f5d91dab3f9e49f4cf33b34ae239a5d9a1ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 21/21] fix: limited Gauss-Seidel does not report success from
 a non-finite guess

Comparisons with NaN are false, so rows started from a NaN or infinite guess
were taken for converged while the other rows had been pushed to their limits.
---
 src/gauss_seidel_sle_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index d22f621..5d5429e 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -153,6 +153,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(x - k->get(0, i)) / min_k;
+        if (std::isnan(delta)) return delta;
+
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


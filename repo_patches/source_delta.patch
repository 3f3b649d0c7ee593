From 672cf4053e9582db29464c33dcc930da3bd30c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 01/38] fix: require strictly negative support value in primal
 infeasibility certificate

A dual direction with A'dy = 0 and u'dy+ + l'dy- = 0 proves nothing, but was
reported as PrimalInfeasible for feasible problems with redundant constraints.
---
 include/smooth/feedback/qp_solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4f98562..1845608 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -616,7 +616,8 @@ protected:
       }
     }
 
-    if (std::max<Scalar>(norm(Aty_), u_dyp_plus_l_dyn) < prm_.eps_primal_inf * Edy_norm) {
+    // NOTE a zero sum is not a certificate: the sum must be strictly negative
+    if (norm(Aty_) < prm_.eps_primal_inf * Edy_norm && u_dyp_plus_l_dyn < -prm_.eps_primal_inf * Edy_norm) {
       return QPSolutionStatus::PrimalInfeasible;
     }
 
-- 
2.43.0


From 3f0f7b2584be967e7419991033b0effe4d48366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 02/38] fix: require strictly decreasing cost in dual
 infeasibility certificate

A direction along which the cost is constant is not a certificate, but was
reported as DualInfeasible for e.g. feasibility problems (P = 0, q = 0).
---
 include/smooth/feedback/qp_solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 1845608..930d8a7 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -627,8 +627,9 @@ protected:
     const Scalar dx_norm = norm(dx_us_);
     Px_.noalias()        = pbm.P * dx_us_;
 
+    // NOTE dx = 0 or q'dx = 0 is not a certificate: the cost must strictly decrease along dx
     bool dual_infeasible =
-      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
+      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
       if (pbm.u(i) == inf) {
         dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
-- 
2.43.0


From 39f4442abee3a4e37a22de1abf64b58e18e2da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 03/38] fix: unbounded rows do not restrict dual infeasibility
 certificates

A row with l = -inf and u = inf was treated as a lower bound, so that unbounded
problems with such rows never terminated.
---
 include/smooth/feedback/qp_solver.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 930d8a7..7e4ed97 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -631,7 +631,9 @@ protected:
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
-      if (pbm.u(i) == inf) {
+      if (pbm.l(i) == -inf && pbm.u(i) == inf) {
+        continue;  // unbounded row does not restrict dx
+      } else if (pbm.u(i) == inf) {
         dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
       } else if (pbm.l(i) == -inf) {
         dual_infeasible &= (Ax_(i) <= prm_.eps_dual_inf * dx_norm);
-- 
2.43.0


From 420043c5d8ba314d254f72ec2efcfbf52f0c0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 04/38] fix: use only upper triangular part of P in stopping
 criteria and objective

P is documented to be read from its upper triangle (which is what ocp_to_qp
produces), but the termination check and objective used the full matrix.
---
 include/smooth/feedback/qp_solver.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 7e4ed97..9449327 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -489,12 +489,13 @@ public:
 
         if (prm_.verbose) {
           using std::cout, std::setw, std::right, std::chrono::microseconds;
+          Px_.noalias() = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
           // clang-format off
           cout << setw(7) << right << iter << ":"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << x_us_.dot(Scalar(0.5) * Px_ + pbm.q)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -521,12 +522,13 @@ public:
           z_us_ = sy_.cwiseInverse().cwiseProduct(z_);
 
           using std::cout, std::setw, std::right, std::chrono::microseconds;
+          Px_.noalias() = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
           // clang-format off
           cout << setw(8) << right << "polish:"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << x_us_.dot(Scalar(0.5) * Px_ + pbm.q)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -544,7 +546,8 @@ public:
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
-    sol_.objective = sol_.primal.dot(0.5 * pbm.P * sol_.primal + pbm.q);
+    Px_.noalias()  = pbm.P.template selfadjointView<Eigen::Upper>() * sol_.primal;
+    sol_.objective = sol_.primal.dot(Scalar(0.5) * Px_ + pbm.q);
     sol_.iter      = iter;
 
     if (prm_.verbose) {
@@ -586,7 +589,7 @@ protected:
     Ax_ -= z_us_;
     if (norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_))) {
       // primal succeeded, check dual
-      Px_.noalias()           = pbm.P * x_us_;
+      Px_.noalias()           = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
@@ -625,7 +628,7 @@ protected:
 
     Ax_.noalias()        = pbm.A * dx_us_;  // note new value A * dx
     const Scalar dx_norm = norm(dx_us_);
-    Px_.noalias()        = pbm.P * dx_us_;
+    Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     // NOTE dx = 0 or q'dx = 0 is not a certificate: the cost must strictly decrease along dx
     bool dual_infeasible =
-- 
2.43.0


From c6a7ea68af5d71a33be815be4a4a688adafd1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 05/38] fix: check stopping criterion when stop_check_iter is
 one

iter % 1 is never 1, so the solver never terminated.
---
 include/smooth/feedback/qp_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 9449327..0fd1d78 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -462,7 +462,7 @@ public:
         ldlt_.ldlt.solveInPlace(p_);
       }
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // termination checking requires difference, store old scaled values
         dx_us_ = sol_.primal, dy_us_ = sol_.dual;
       }
@@ -476,7 +476,7 @@ public:
                 - rho_.cwiseProduct(z_next_);
       std::swap(z_, z_next_);
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // unscale solution
         x_us_  = sx_.cwiseProduct(sol_.primal);
         y_us_  = sy_.cwiseProduct(sol_.dual) / c_;
-- 
2.43.0


From cad3762e30c6b2a09c622d15a0bad5c91ffd8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 06/38] fix: report PolishFailed exit code

The code was overwritten by Optimal when the solution was unscaled.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 0fd1d78..c756f13 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -536,7 +536,7 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        sol_.code = QPSolutionStatus::PolishFailed;
+        ret_code = QPSolutionStatus::PolishFailed;
       }
     }
 
-- 
2.43.0


From b8b1b7f9211dd2cc35fb044f24d2be178624bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 07/38] fix: allow scaling of problems without constraints

maxCoeff() is not defined for empty vectors, lpNorm<Infinity>() is.
---
 include/smooth/feedback/qp_solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index c756f13..a0ef994 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -733,7 +733,10 @@ protected:
       sx_.applyOnTheLeft(sx_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
       sy_.applyOnTheLeft(sy_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
     } while (iter++ < 10
-             && std::max((sx_inc_.array() - 1).abs().maxCoeff(), (sy_inc_.array() - 1).abs().maxCoeff()) > 0.1);
+             && std::max(
+                  (sx_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>(),
+                  (sy_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>())
+                  > 0.1);
   }
 
 private:
-- 
2.43.0


From f5ebdd35875bf6f6bd30cee8d3bf68382b0f3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 08/38] fix: redo symbolic factorization after
 QPSolver::analyze()

A solver that was re-analyzed for a problem with different structure reused the
elimination order of the previous problem.
---
 include/smooth/feedback/qp_solver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index a0ef994..2443320 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -335,6 +335,9 @@ public:
       for (auto i = 0u; i < m; ++i) { nnz(n + i) = pbm.A.outerIndexPtr()[i + 1] - pbm.A.outerIndexPtr()[i] + 1; }
       H_.reserve(nnz);
     }
+
+    // sparsity pattern may have changed
+    ldlt_.first = true;
   }
 
   /**
-- 
2.43.0


From 296ad362e2011e13e16db4c66b8ed90b3aa621d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 09/38] fix: allow warmstarting QPSolver from its own solution

solver.solve(pbm, solver.sol()) used the already scaled primal variable to
initialize the constraint variable.
---
 include/smooth/feedback/qp_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 2443320..fa0d165 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -437,10 +437,10 @@ public:
 
     // initialize solver variables
     if (warmstart.has_value()) {
-      // warmstart variables must be scaled
+      // warmstart variables must be scaled (z first since warmstart may refer to sol_)
+      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
       sol_.primal  = sx_.cwiseInverse().cwiseProduct(warmstart.value().get().primal);
       sol_.dual    = c_ * sy_.cwiseInverse().cwiseProduct(warmstart.value().get().dual);
-      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
     } else {
       sol_.primal.setZero();
       sol_.dual.setZero();
-- 
2.43.0


From 126460b7ce150c1e3b5f437910131a723e8080f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 10/38] fix: compile QPSolver for scalar types other than
 double

---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index fa0d165..2e4b6ad 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -700,7 +700,7 @@ protected:
     }
 
     // scale cost function
-    c_ = Scalar(1) / std::max({1e-6, sx_inc_.mean(), pbm.q.template lpNorm<Eigen::Infinity>()});
+    c_ = Scalar(1) / std::max({Scalar(1e-6), sx_inc_.mean(), pbm.q.template lpNorm<Eigen::Infinity>()});
 
     int iter = 0;
 
-- 
2.43.0


From 93e7ca1b0a98588f9b1146048e3a2cc61850f11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 11/38] fix: only accept polished solution if it satisfies the
 optimality conditions

When the set of active constraints was misjudged, e.g. when the problem is
degenerate, the polished solution replaced a valid solution even if it was
infeasible, and was reported as Optimal.
---
 include/smooth/feedback/qp_solver.hpp | 32 +++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 2e4b6ad..7553639 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -87,6 +87,9 @@ using qp_solution_t = QPSolution<
  * @param[in] sx variable scaling
  * @param[in] sy constraint scaling
  *
+ * @return true if solution was polished, false if polishing failed or if the polished solution does not
+ * satisfy the optimality conditions (in this case the solution is not modified)
+ *
  * @warning This function allocates dynamic memory even for static-sized problems.
  */
 template<typename Pbm, typename D1, typename D2>
@@ -194,6 +197,35 @@ bool polish_qp(
     t_hat += ldlt.solve(h - H.template selfadjointView<Eigen::Upper>() * t_hat);
   }
 
+  // VERIFY POLISHED SOLUTION
+
+  // unscaled candidate solution
+  const Eigen::VectorX<Scalar> x = sx.cwiseProduct(t_hat.head(n));
+  Eigen::VectorX<Scalar> y       = sy.cwiseProduct(sol.dual) / c;
+  for (auto i = 0u; i != nl + nu; ++i) { y(LU_idx(i)) = sy(LU_idx(i)) * t_hat(n + i) / c; }
+
+  const Eigen::VectorX<Scalar> Ax  = pbm.A * x;
+  const Eigen::VectorX<Scalar> Px  = pbm.P.template selfadjointView<Eigen::Upper>() * x;
+  const Eigen::VectorX<Scalar> Aty = pbm.A.transpose() * y;
+
+  static const auto norm = [](auto && t) -> Scalar { return t.template lpNorm<Eigen::Infinity>(); };
+
+  const Scalar eps_prim = prm.eps_abs + prm.eps_rel * norm(Ax);
+  const Scalar eps_dual = prm.eps_abs + prm.eps_rel * std::max<Scalar>({norm(Px), norm(pbm.q), norm(Aty)});
+  const Scalar eps_sign = prm.eps_abs + prm.eps_rel * norm(y);
+
+  // NOTE conditions written s.t. nan is rejected
+  if (!(norm(Px + pbm.q + Aty) <= eps_dual)) { return false; }
+  for (auto i = 0u; i != m; ++i) {
+    if (!(Ax(i) >= pbm.l(i) - eps_prim && Ax(i) <= pbm.u(i) + eps_prim)) { return false; }
+  }
+  for (auto i = 0u; i != nl + nu; ++i) {
+    const auto idx = LU_idx(i);
+    // multiplier must not point into the feasible set (any sign is fine for equalities)
+    if (i < nl && pbm.u(idx) - Ax(idx) > eps_prim && !(y(idx) <= eps_sign)) { return false; }
+    if (i >= nl && Ax(idx) - pbm.l(idx) > eps_prim && !(y(idx) >= -eps_sign)) { return false; }
+  }
+
   // UPDATE SOLUTION
 
   sol.primal = t_hat.template head<N>(n);
-- 
2.43.0


From 21ad9af5284437e33b1cb54f7c26d9b33af8123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 12/38] fix: set_zero on block expressions of compressed sparse
 matrices

---
 include/smooth/feedback/utils/sparse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 11718e2..9e1f2fc 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -7,6 +7,7 @@
  * @brief Sparse matrix utilities.
  */
 
+#include <algorithm>
 #include <numeric>
 #include <optional>
 
@@ -140,7 +141,9 @@ template<typename SparseMat>
 inline void set_zero(SparseMat && mat)
 {
   if (mat.isCompressed()) {
-    mat.coeffs().setZero();
+    // NOTE the values of a block expression do not start at valuePtr()
+    const auto offset = mat.outerIndexPtr() ? mat.outerIndexPtr()[0] : 0;
+    std::fill_n(mat.valuePtr() + offset, mat.nonZeros(), 0);
   } else {
     for (auto i = 0; i < mat.outerSize(); ++i) {
       for (typename std::decay_t<decltype(mat)>::InnerIterator it(mat, i); it; ++it) { it.valueRef() = 0; }
-- 
2.43.0


From 5e20cabf97f7b4d43e85b44f241e3daa84d65d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 13/38] fix: allow NLPs without second derivatives in the Ipopt
 adapter

---
 include/smooth/feedback/compat/ipopt.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7501e11..7b6ffe9 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -212,12 +212,14 @@ public:
         }
       }
     } else {
-      Eigen::Map<const Eigen::VectorXd> xvar(x, n);
-      Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
+      if constexpr (HessianNLP<Problem>) {
+        Eigen::Map<const Eigen::VectorXd> xvar(x, n);
+        Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
 
-      H_ += nlp_.d2f_dx2(xvar);
-      H_ *= sigma;
-      H_ += nlp_.d2g_dx2(xvar, lvar);
+        H_ += nlp_.d2f_dx2(xvar);
+        H_ *= sigma;
+        H_ += nlp_.d2g_dx2(xvar, lvar);
+      }
 
       for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
         for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
-- 
2.43.0


From a9fdf619fc99ff69619abe46c4f7497e9ac7ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 14/38] fix: let Ipopt approximate the Hessian unless it is
 requested

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7b6ffe9..8c33b69 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -318,6 +318,9 @@ inline NLPSolution solve_nlp_ipopt(
   // silence welcome message
   app->Options()->SetStringValue("sb", "yes");
 
+  // the Hessian is only provided upon request
+  if (!use_hessian) { app->Options()->SetStringValue("hessian_approximation", "limited-memory"); }
+
   if (warmstart.has_value()) {
     // initial guess is given
     app->Options()->SetStringValue("warm_start_init_point", "yes");
-- 
2.43.0


From 2f5caa5665ddbb1b500b73a2ec14412ddd047362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 15/38] fix: do not report stale status if Ipopt terminates
 early

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 8c33b69..79ff548 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -331,6 +331,9 @@ inline NLPSolution solve_nlp_ipopt(
     ipopt_nlp->sol().x.setZero(n);
   }
 
+  // Ipopt may give up before finalize_solution() is called
+  ipopt_nlp->sol().status = NLPSolution::Status::Unknown;
+
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
   for (auto [opt, val] : opts_string) { app->Options()->SetStringValue(opt, val); }
-- 
2.43.0


From aed33346b88b12fd94eb601671ad64d2b976b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 16/38] fix: use minimal degree in all intervals created by
 Mesh::refine_ph

---
 include/smooth/feedback/collocation/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index f8c9f09..2c64535 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -153,6 +153,7 @@ public:
       const double tauf = i + 1 < intervals_.size() ? intervals_[i + 1].tau0 : 1.;
       const double taum = (tauf - tau0) / static_cast<double>(n);
 
+      intervals_[i].K = Kmin;
       while (n-- > 1) {
         intervals_.insert(
           std::next(intervals_.begin(), static_cast<intptr_t>(i + 1)),
-- 
2.43.0


From 66234027b3638307619de543ff19a5b5e6c3adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 17/38] fix: avoid division by zero in Mesh::refine_errors for
 degree one intervals

---
 include/smooth/feedback/collocation/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 2c64535..7328f2f 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -183,7 +183,7 @@ public:
       const auto Ki = N_colloc_ival(i);
 
       if (e > target_err) {
-        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(Ki) + 1);
+        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(std::max<std::size_t>(Ki, 2)) + 1);
         refine_ph(i, Ktarget);
       }
     }
-- 
2.43.0


From 59b74cca0fb2d193ab7da24c29dc348de5a0488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 18/38] fix: scale derivatives in Mesh::eval with the interval
 length

---
 include/smooth/feedback/collocation/mesh.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 7328f2f..ce3213d 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -439,6 +439,9 @@ public:
     const double tau0 = intervals_[ival].tau0;
     const double tauf = ival + 1 < intervals_.size() ? intervals_[ival + 1].tau0 : 1.;
 
+    // derivatives of u w.r.t. t
+    const double du_p = std::pow(2. / (tauf - tau0), static_cast<double>(p));
+
     const double u = 2 * (t - tau0) / (tauf - tau0) - 1;
 
     int64_t N_before = 0;
@@ -468,7 +471,7 @@ public:
       }
     });
 
-    return ret;
+    return du_p * ret;
   }
 
 private:
-- 
2.43.0


From 15fb696e8a2bf98d226a2561887f361cea0d62f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 19/38] fix: EKF update of a one-dimensional state with a
 vector measurement

The product of a column vector with a 1x1 self-adjoint view is evaluated by
Eigen as a row-vector product and the innovation covariance lost H P H'.
P_ is stored in full: use it directly.
---
 include/smooth/feedback/ekf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ekf.hpp b/include/smooth/feedback/ekf.hpp
index bd33847..0f726ff 100644
--- a/include/smooth/feedback/ekf.hpp
+++ b/include/smooth/feedback/ekf.hpp
@@ -127,7 +127,7 @@ public:
     static_assert(Ny > 0, "h(x) must be statically sized");
 
     const Eigen::Matrix<Scalar<G>, Ny, Ny> S =
-      (H * P_.template selfadjointView<Eigen::Upper>() * H.transpose() + R).template triangularView<Eigen::Upper>();
+      (H * P_ * H.transpose() + R).template triangularView<Eigen::Upper>();
 
     // solve for Kalman gain
     const Eigen::Matrix<Scalar<G>, Dof<G>, Ny> K =
-- 
2.43.0


From 0ad5813868a169ebaee0a46d708a6a3d8cc783a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 20/38] fix: ASIF barrier instants are not overshot when the
 integration step does not divide their spacing

The step length was computed once per instant, so that the last step went past
the instant (also with the default parameters, where rounding leaves t just
below an instant and a full extra step was taken).
---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 9362474..74c9cbf 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -171,8 +171,8 @@ void asif_to_qp_update(
     qp.u.template segment<nh>(k * nh).setConstant(std::numeric_limits<double>::infinity());
 
     // integrate system and sensitivity forward until next constraint
-    double dt_act = std::min(dt, tau * (k + 1) - t);
     while (t < tau * (k + 1)) {
+      const double dt_act = std::min(dt, tau * (k + 1) - t);
       state_stepper.do_step(x_ode, x, t, dt_act);
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
       t += dt_act;
-- 
2.43.0


From c7f640232b1335b3b173db8e4d11660c8acabde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 21/38] fix: ASIF sensitivity is linearised around the state at
 the beginning of each step

---
 include/smooth/feedback/asif_func.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 74c9cbf..9028fcf 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -173,8 +173,9 @@ void asif_to_qp_update(
     // integrate system and sensitivity forward until next constraint
     while (t < tau * (k + 1)) {
       const double dt_act = std::min(dt, tau * (k + 1) - t);
-      state_stepper.do_step(x_ode, x, t, dt_act);
+      // step sensitivity first since it depends on x
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
+      state_stepper.do_step(x_ode, x, t, dt_act);
       t += dt_act;
     }
   }
-- 
2.43.0


From 3499b93031e0b31898e02a8b1b34f9e640c2800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 22/38] fix: asif_to_qp uses the requested differentiation
 method

---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 9028fcf..f516ae6 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -255,7 +255,7 @@ asif_to_qp(const ASIFProblem<X, U> & pbm, const ASIFtoQPParams & prm, auto && f,
   const int nu_ineq = pbm.ulim.A.rows();
   QuadraticProgram<-1, -1, double> qp;
   asif_to_qp_allocate<X, U>(qp, prm.K, nu_ineq, nh);
-  asif_to_qp_update(
+  asif_to_qp_update<X, U, DT>(
     qp, pbm, prm, std::forward<decltype(f)>(f), std::forward<decltype(h)>(h), std::forward<decltype(bu)>(bu));
   return qp;
 }
-- 
2.43.0


From 5a83fd8250e7e5034bc5b0e7127602be4b067a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 23/38] fix: keep the state-integral blocks of the endpoint
 Hessians in OCPNLP

Integrals come before states in the variable vector, so the (x, q) blocks lie
below the diagonal and were dropped. Add the (q, x) blocks instead.
---
 include/smooth/feedback/ocp_to_nlp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_nlp.hpp b/include/smooth/feedback/ocp_to_nlp.hpp
index ab4c4d8..717fdb0 100644
--- a/include/smooth/feedback/ocp_to_nlp.hpp
+++ b/include/smooth/feedback/ocp_to_nlp.hpp
@@ -236,10 +236,10 @@ public:
 
     block_add(d2f_dx2_, x0var_B, x0var_B, d2fval.block(         1,          1, Nx, Nx), 1, true);  // x0x0
     block_add(d2f_dx2_, x0var_B, xfvar_B, d2fval.block(         1,     1 + Nx, Nx, Nx), 1, true);  // x0xf
-    block_add(d2f_dx2_, x0var_B,  qvar_B, d2fval.block(         1, 1 + 2 * Nx, Nx, Nq), 1, true);  // x0q
+    block_add(d2f_dx2_,  qvar_B, x0var_B, d2fval.block(1 + 2 * Nx,          1, Nq, Nx), 1, true);  // qx0
 
     block_add(d2f_dx2_, xfvar_B, xfvar_B, d2fval.block(    1 + Nx,     1 + Nx, Nx, Nx), 1, true);  // xfxf
-    block_add(d2f_dx2_, xfvar_B,  qvar_B, d2fval.block(    1 + Nx, 1 + 2 * Nx, Nx, Nq), 1, true);  // xfq
+    block_add(d2f_dx2_,  qvar_B, xfvar_B, d2fval.block(1 + 2 * Nx,     1 + Nx, Nq, Nx), 1, true);  // qxf
 
     block_add(d2f_dx2_,  qvar_B,  qvar_B, d2fval.block(1 + 2 * Nx, 1 + 2 * Nx, Nq, Nq), 1, true);  // qq
     // clang-format on
@@ -402,10 +402,10 @@ public:
 
       block_add(d2g_dx2_, x0var_B, x0var_B, d2ceval.block(         1, b0 +          1, Nx, Nx), lambda(cecon_B + j), true);  // x0x0
       block_add(d2g_dx2_, x0var_B, xfvar_B, d2ceval.block(         1, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // x0xf
-      block_add(d2g_dx2_, x0var_B,  qvar_B, d2ceval.block(         1, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // x0q
+      block_add(d2g_dx2_,  qvar_B, x0var_B, d2ceval.block(1 + 2 * Nx, b0 +          1, Nq, Nx), lambda(cecon_B + j), true);  // qx0
 
       block_add(d2g_dx2_, xfvar_B, xfvar_B, d2ceval.block(    1 + Nx, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // xfxf
-      block_add(d2g_dx2_, xfvar_B,  qvar_B, d2ceval.block(    1 + Nx, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // xfq
+      block_add(d2g_dx2_,  qvar_B, xfvar_B, d2ceval.block(1 + 2 * Nx, b0 +     1 + Nx, Nq, Nx), lambda(cecon_B + j), true);  // qxf
 
       block_add(d2g_dx2_,  qvar_B,  qvar_B, d2ceval.block(1 + 2 * Nx, b0 + 1 + 2 * Nx, Nq, Nq), lambda(cecon_B + j), true);  // qq
       // clang-format on
-- 
2.43.0


From b19850f7204ca07f7394a52bcf4177fb3219b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 24/38] fix: full weight of the endpoint cost Hessian in
 ocp_to_qp

The QP cost is (1/2) x' P x + q' x, so P must hold the Hessian of the
endpoint cost, as it does for the integral cost. The factor 0.5 halved the
weight of quadratic endpoint costs.
---
 include/smooth/feedback/ocp_to_qp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index 0e8b223..a0bd66d 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -186,9 +186,9 @@ void ocp_to_qp_update_cost(
   //// ENDPOINT COST ////
   ///////////////////////
 
-  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 0.5, true);                      // d2q / dx0x0
-  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 0.5, true);            // d2q / dx0xf
-  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 0.5, true);  // d2q / dxfxf
+  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 1, true);                      // d2q / dx0x0
+  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 1, true);            // d2q / dx0xf
+  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 1, true);  // d2q / dxfxf
 
   qp.q.segment(0, Nx) += qo_x0;       // dq / dx0
   qp.q.segment(Nx * N, Nx) += qo_xf;  // dq / dxf
-- 
2.43.0


From 34a35c5f9ffa347c7d252943c8ece007568ee1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 25/38] fix: template argument order of the OCPSolution
 returned by qpsol_to_ocpsol

---
 include/smooth/feedback/ocp_to_qp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index a0bd66d..d2c4cd0 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -490,7 +490,7 @@ auto qpsol_to_ocpsol(
     return rplus(ul_fun(t), tngnt);
   };
 
-  return OCPSolution<X, U, Nq, Nce, Ncr>{
+  return OCPSolution<X, U, Nq, Ncr, Nce>{
     .t0 = 0.,
     .tf = tf,
     .u  = std::move(ufun),
-- 
2.43.0


From 8fbe9ed360d84d8390d815e26728ecc02347e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 26/38] fix: clear end constraint rows in ocp_to_qp_update_ce

block_write only visits the entries a sparse derivative holds, so that entries
of a previous linearization survived an update.
---
 include/smooth/feedback/ocp_to_qp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index d2c4cd0..39beaa5 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -362,6 +362,8 @@ void ocp_to_qp_update_ce(
   //// ENDPOINT CONSTRAINTS ////
   //////////////////////////////
 
+  set_zero(qp.A.middleRows(cecon_B, cecon_L));
+
   const Eigen::Vector<double, 1> ql{1.};
   const auto & [ceval, dceval] = diff::dr<1, DT>(ocp.ce, wrt(tf, xl0, xlf, ql));
 
-- 
2.43.0


From e8bf082b293e5283caa6c9cf3636431cfac186e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 27/38] fix: let flatten_ocp own its reference trajectories
 (temporaries did not compile)

---
 include/smooth/feedback/ocp_flatten.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/ocp_flatten.hpp b/include/smooth/feedback/ocp_flatten.hpp
index 16751b5..f9d4e23 100644
--- a/include/smooth/feedback/ocp_flatten.hpp
+++ b/include/smooth/feedback/ocp_flatten.hpp
@@ -515,8 +515,8 @@ auto flatten_ocp(const OCPType auto & ocp, auto && xl, auto && ul)
   using ocp_t = std::decay_t<decltype(ocp)>;
   using X     = typename ocp_t::X;
   using U     = typename ocp_t::U;
-  using Xl    = decltype(xl);
-  using Ul    = decltype(ul);
+  using Xl    = std::decay_t<decltype(xl)>;
+  using Ul    = std::decay_t<decltype(ul)>;
 
   static constexpr auto Nq = ocp_t::Nq;
 
-- 
2.43.0


From e3402a22bccd1e29e5a3f419f90853e061cd9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 28/38] fix: terminal weight of MPC penalizes the terminal
 instead of the initial state

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1a9a19b..82287fb 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -109,7 +109,7 @@ struct MPCObj
 
     for (auto i = 0u; i < Nx; ++i) {
       for (auto j = 0u; j < Nx; ++j) {
-        if (Qtf(i, j) != 0) { hess.coeffRef(1 + i, 1 + j) = Qtf(i, j); }
+        if (Qtf(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = Qtf(i, j); }
       }
     }
 
-- 
2.43.0


From 33b336c5fb62293be29aa15e28b9018359fdd7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 29/38] fix: sparsity of the MPC input weight follows R instead
 of Q (out of bounds if Nu > Nx)

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 82287fb..baf8ed9 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -218,7 +218,7 @@ struct MPCIntegrand
     }
     for (auto i = 0u; i < Nu; ++i) {
       for (auto j = 0u; j < Nu; ++j) {
-        if (Q(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
+        if (R(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
       }
     }
 
-- 
2.43.0


From a840c2437d4ce60c4522a80fa1b2a61702c0930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 30/38] fix: MPC weights set after construction take effect

---
 include/smooth/feedback/mpc.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index baf8ed9..ef0822c 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -478,6 +478,13 @@ public:
     ocp_.ce.x0_fix    = x;
 
     // transcribe to QP
+    if (new_weights_) {
+      // cost only depends on the weights, but its sparsity pattern may have changed
+      ocp_to_qp_update_cost<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+      qp_.P.makeCompressed();
+      qp_solver_.analyze(qp_);
+      new_weights_ = false;
+    }
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     if constexpr (requires(CR & crvar, T tvar) { crvar.set_time(tvar); }) {
       // only update if running constraints are time-dependent
@@ -595,6 +602,7 @@ public:
     ocp_.g.R       = weights.R;
     ocp_.g.Q       = weights.Q;
     ocp_.theta.Qtf = weights.Qtf;
+    new_weights_   = true;
   }
 
   /**
@@ -631,6 +639,9 @@ private:
   // internal QP solver
   QPSolver<QuadraticProgramSparse<double>> qp_solver_;
 
+  // weights have changed since the last call
+  bool new_weights_{false};
+
   // last solution stored for warmstarting
   std::optional<QPSolution<-1, -1, double>> warmstart_{};
 };
-- 
2.43.0


From cc0b60d6446db8cf893c9a1611c2c0cd63a9a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 31/38] fix: MPC running constraints follow the linearization
 trajectory

---
 include/smooth/feedback/mpc.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index ef0822c..1967118 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -486,10 +486,7 @@ public:
       new_weights_ = false;
     }
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    if constexpr (requires(CR & crvar, T tvar) { crvar.set_time(tvar); }) {
-      // only update if running constraints are time-dependent
-      ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    }
+    ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
-- 
2.43.0


From fd66d66ac75e93a6c68a8a9ad3eac9fd82e55ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 32/38] fix: copies of an MPC share the desired trajectories of
 the original

---
 include/smooth/feedback/mpc.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1967118..31936cc 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -434,12 +434,20 @@ public:
   {}
   /// @brief Default constructor
   inline MPC() = default;
-  /// @brief Default copy constructor
-  inline MPC(const MPC &) = default;
+  /// @brief Copy constructor (copies have their own desired trajectories)
+  inline MPC(const MPC & o)
+      : xdes_{o.xdes_ ? std::make_shared<detail::XDes<T, X>>(*o.xdes_) : nullptr},
+        udes_{o.udes_ ? std::make_shared<detail::UDes<T, U>>(*o.udes_) : nullptr}, mesh_{o.mesh_}, ocp_{o.ocp_},
+        prm_{o.prm_}, work_{o.work_}, qp_{o.qp_}, qp_solver_{o.qp_solver_}, new_weights_{o.new_weights_},
+        warmstart_{o.warmstart_}
+  {
+    ocp_.g.xdes = xdes_;
+    ocp_.g.udes = udes_;
+  }
   /// @brief Default move constructor
   inline MPC(MPC &&) = default;
-  /// @brief Default copy assignment
-  inline MPC & operator=(const MPC &) = default;
+  /// @brief Copy assignment
+  inline MPC & operator=(const MPC & o) { return *this = MPC(o); }
   /// @brief Default move assignment
   inline MPC & operator=(MPC &&) = default;
   /// @brief Default destructor
-- 
2.43.0


From 589dbb54c7eb606cd562db0311d0570d4131d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 33/38] fix: remove stray #endif in compat/osqp.hpp (header did
 not compile)

---
 include/smooth/feedback/compat/osqp.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 596b0e5..cfeab61 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -149,5 +149,3 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 }
 
 }  // namespace smooth::feedback
-
-#endif  // SMOOTH__FEEDBACK__COMPAT__OSQP_HPP_
-- 
2.43.0


From 568451c4138e0ba5a5992afa74175d3d2033f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 34/38] fix: do not clean up an uninitialized OSQP workspace
 when setup fails

---
 include/smooth/feedback/compat/osqp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index cfeab61..02b9efd 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -89,7 +89,7 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   data->l         = const_cast<double *>(pbm.l.data());
   data->u         = const_cast<double *>(pbm.u.data());
 
-  OSQPWorkspace * work;
+  OSQPWorkspace * work = nullptr;
 
   QPSolution<-1, -1, double> ret;
   ret.code = QPSolutionStatus::Unknown;
-- 
2.43.0


From 453070577e61c7f284e8d0e0a5e53fe0479146bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 35/38] fix: do not warm start OSQP after a failed setup, and
 report errors of osqp_solve

---
 include/smooth/feedback/compat/osqp.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 02b9efd..4d88428 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -96,14 +96,11 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 
   c_int error = osqp_setup(&work, data, settings);
 
-  if (warmstart) {
+  if (!error && warmstart) {
     osqp_warm_start(work, warmstart.value().get().primal.data(), warmstart.value().get().dual.data());
-    settings->warm_start = 1;
-  } else {
-    settings->warm_start = 0;
   }
 
-  if (!error) { error &= osqp_solve(work); }
+  if (!error) { error = osqp_solve(work); }
 
   if (!error) {
     switch (work->info->status_val) {
-- 
2.43.0


From 792bc9241268caa0d919fd49651d76962b594399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 36/38] fix: a zero time budget is not an unlimited budget for
 OSQP

---
 include/smooth/feedback/compat/osqp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 4d88428..111bf12 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -75,7 +75,8 @@ QPSolution<-1, -1, double> solve_qp_osqp(
     settings->max_iter = std::numeric_limits<c_int>::max();
   }
   if (prm.max_time) {
-    settings->time_limit = duration_cast<std::chrono::duration<double>>(prm.max_time.value()).count();
+    // zero means no limit in OSQP
+    settings->time_limit = std::max(1e-9, duration_cast<std::chrono::duration<double>>(prm.max_time.value()).count());
   } else {
     settings->time_limit = 0;
   }
-- 
2.43.0


From af9d49a77f6193f06818fdde75c5d5269d5047cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 37/38] fix: derivatives that are nan do not pass the
 derivative test

---
 include/smooth/feedback/ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp.hpp b/include/smooth/feedback/ocp.hpp
index b9e3c19..5cddd00 100644
--- a/include/smooth/feedback/ocp.hpp
+++ b/include/smooth/feedback/ocp.hpp
@@ -201,7 +201,7 @@ bool test_ocp_derivatives(OCPType auto & ocp, uint32_t num_trials = 1, double ep
       && (m1.rows() == m2.rows())
       && (
           m1.isApprox(m2, 1e-4) ||
-          Eigen::MatrixXd(m1 - m2).cwiseAbs().maxCoeff() < eps
+          (Eigen::MatrixXd(m1 - m2).cwiseAbs().array() < eps).all()  // false for nan
       )
       // clang-format on
     );
-- 
2.43.0


From d6e95822ecc2d2acea7cb61c4dde828071301086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 38/38] fix: sparse problems in single precision did not
 compile

---
 include/smooth/feedback/utils/sparse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 9e1f2fc..ec1924a 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -100,11 +100,11 @@ inline void block_write(
  *
  * @note Values are accessed with coeffRef().
  */
-template<int Options>
+template<int Options, typename Scalar>
 inline void block_add_identity(
-  Eigen::SparseMatrix<double, Options> & dest, Eigen::Index row0, Eigen::Index col0, Eigen::Index n, double scale = 1)
+  Eigen::SparseMatrix<Scalar, Options> & dest, Eigen::Index row0, Eigen::Index col0, Eigen::Index n, double scale = 1)
 {
-  for (auto k = 0u; k < n; ++k) { dest.coeffRef(row0 + k, col0 + k) += scale; }
+  for (auto k = 0u; k < n; ++k) { dest.coeffRef(row0 + k, col0 + k) += static_cast<Scalar>(scale); }
 }
 
 /**
-- 
2.43.0


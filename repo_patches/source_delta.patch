From 6b4a7d96b5282e80332ebb5a0e65a72841fe44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 01/75] fix: read back the infinities and NaNs that ASCIILogger
 writes

---
 src/common/data_logging.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/common/data_logging.hpp b/src/common/data_logging.hpp
index c9afab9..6b3d06d 100644
--- a/src/common/data_logging.hpp
+++ b/src/common/data_logging.hpp
@@ -1,6 +1,7 @@
 #ifndef MISO_DATA_LOGGING
 #define MISO_DATA_LOGGING
 
+#include <cstdlib>
 #include <iostream>
 #include <filesystem>
 #include <fstream>
@@ -51,7 +52,7 @@ public:
       auto filename = prefix + "/" + fieldname + "_" +
                       std::to_string(timestep) + "_" + std::to_string(rank);
       std::ifstream infile(filename);
-      infile >> time;
+      readValue(infile, time);
 
       int size = 0;
       infile >> size;
@@ -59,11 +60,22 @@ public:
       state.SetSize(size);
       for (int i = 0; i < size; ++i)
       {
-         infile >> state(i);
+         readValue(infile, state(i));
       }
    }
 
 private:
+   /// Reads one number written by `saveState`, including the infinities and
+   /// NaNs that stream extraction of a double does not accept
+   static void readValue(std::ifstream &infile, double &value)
+   {
+      std::string token;
+      if (infile >> token)
+      {
+         value = std::strtod(token.c_str(), nullptr);
+      }
+   }
+
    inline static const std::string prefix = "ASCIILogger";
 };
 
-- 
2.43.0


From e50e345ea3d6ee853216cbd33eb1770225b5f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 02/75] fix: sign of the minimizer when the cubic interpolant
 is a quadratic

---
 src/common/linesearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 2d3cd77..efc3cc4 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -40,7 +40,7 @@ double cubic_interp(double phi0,
 
    if (abs(a) < std::numeric_limits<double>::epsilon())
    {
-      return dphi0 / (2 * b);
+      return -dphi0 / (2 * b);
    }
    else
    {
-- 
2.43.0


From 88e09d0887e611c6a8ff2a9bd37ae7dd9e5846ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 03/75] fix: backtracking line search must not accept a NaN
 merit value

---
 src/common/linesearch.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index efc3cc4..ff59cdb 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -68,7 +68,8 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
    int iter = 0;
    // std::cout << "linesearch iter 0: phi(0) = " << phi0
    //           << ", dphi(0)/dalpha = " << dphi0 << "\n";
-   while (phi2 > phi0 + mu * alpha2 * dphi0)
+   // note: written so that a NaN is not taken for a sufficient decrease
+   while (!(phi2 <= phi0 + mu * alpha2 * dphi0))
    {
       iter += 1;
       // std::cout << "linesearch iter " << iter << ": alpha = " << alpha2
@@ -95,8 +96,9 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
       alpha1 = alpha2;
       phi1 = phi2;
 
-      alpha_tmp = std::min(alpha_tmp, alpha2 * rho_hi);
-      alpha2 = std::max(alpha_tmp, alpha2 * rho_lo);
+      // note: with this order of arguments a NaN alpha_tmp is discarded
+      alpha_tmp = std::min(alpha2 * rho_hi, alpha_tmp);
+      alpha2 = std::max(alpha2 * rho_lo, alpha_tmp);
 
       phi2 = phi(alpha2);
    }
-- 
2.43.0


From 82e6ac0b678a9cc5d31c5b431b8f5f445be485b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 04/75] fix: inexact Newton must not accept a step to a NaN
 residual

---
 src/common/inexact_newton.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index 0e3bdfd..d8e50fb 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -38,7 +38,8 @@ double InexactNewton::ComputeStepSize(const Vector &x,
 
    // Globalization start from here.
    int itt = 0;
-   while (err_new > (1 - t * (1 - theta)) * norm)
+   // note: written so that a NaN is not taken for a sufficient decrease
+   while (!(err_new <= (1 - t * (1 - theta)) * norm))
    {
       double p1 = 0.5 * err_new * err_new;
       // Quadratic interpolation between [0,1]
-- 
2.43.0


From 115462ba353584c34398d05e409dc852a2e95350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 05/75] fix: slope of the merit function in the inexact Newton
 backtracking

---
 src/common/inexact_newton.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index d8e50fb..1e75d58 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -21,10 +21,10 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    Vector temp(r.Size());
 
    double p0 = 0.5 * norm * norm;
-   // temp=F'(x_i)*r(x_i)
-   jac->Mult(r, temp);
+   // temp=F'(x_i)*c
+   jac->Mult(c, temp);
    // c is the negative inexact newton step size.
-   double p0p = -Dot(c, temp);
+   double p0p = -Dot(r, temp);
    // Calculate the new norm.
 
    add(x, -1.0, c, x_new);
@@ -42,8 +42,8 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    while (!(err_new <= (1 - t * (1 - theta)) * norm))
    {
       double p1 = 0.5 * err_new * err_new;
-      // Quadratic interpolation between [0,1]
-      theta = quadInterp(0.0, p0, p0p, 1.0, p1);
+      // Quadratic interpolation between [0,1] along the current step
+      theta = quadInterp(0.0, p0, s * p0p, 1.0, p1);
       theta = (theta > theta_min) ? theta : theta_min;
       theta = (theta < theta_max) ? theta : theta_max;
       // set the new trial step size.
-- 
2.43.0


From f5264ea24a6adf9d95a9cb707549f1a97a668d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 06/75] fix: relaxed Newton must take the same step on every
 rank

---
 src/common/linesearch.cpp     | 10 ++++++----
 src/common/linesearch.hpp     |  7 ++++++-
 src/common/relaxed_newton.cpp |  6 +++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index ff59cdb..10ff59e 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -112,18 +112,20 @@ Phi::Phi(std::function<void(const mfem::Vector &x, mfem::Vector &res)> calcRes,
          const mfem::Vector &state,
          const mfem::Vector &descent_dir,
          mfem::Vector &residual,
-         mfem::Operator &jac)
+         mfem::Operator &jac,
+         std::function<double(const mfem::Vector &x, const mfem::Vector &y)> dot)
  : calcRes(std::move(calcRes)),
    state(state),
    descent_dir(descent_dir),
    scratch(state.Size()),
    residual(residual),
-   phi0(residual.Norml2()),
+   dot(std::move(dot)),
+   phi0(sqrt(this->dot(residual, residual))),
    dphi0(
        [&]()
        {
           jac.Mult(descent_dir, scratch);
-          return -(scratch * residual) / phi0;
+          return -this->dot(scratch, residual) / phi0;
           //  return -phi0;
        }())
 { }
@@ -134,7 +136,7 @@ double Phi::operator()(double alpha)
    add(state, -alpha, descent_dir, scratch);
 
    calcRes(scratch, residual);
-   return residual.Norml2();
+   return sqrt(dot(residual, residual));
 }
 
 }  // namespace miso
diff --git a/src/common/linesearch.hpp b/src/common/linesearch.hpp
index 049f787..edef396 100644
--- a/src/common/linesearch.hpp
+++ b/src/common/linesearch.hpp
@@ -37,11 +37,15 @@ public:
 class Phi
 {
 public:
+   /// \param[in] dot - inner product that defines the norm to minimize; must be
+   /// the global one when the vectors are distributed
    Phi(std::function<void(const mfem::Vector &x, mfem::Vector &res)> calcRes,
        const mfem::Vector &state,
        const mfem::Vector &descent_dir,
        mfem::Vector &residual,
-       mfem::Operator &jac);
+       mfem::Operator &jac,
+       std::function<double(const mfem::Vector &x, const mfem::Vector &y)> dot =
+           [](const mfem::Vector &x, const mfem::Vector &y) { return x * y; });
 
    double operator()(double alpha);
 
@@ -51,6 +55,7 @@ private:
    const mfem::Vector &descent_dir;
    mfem::Vector scratch;
    mfem::Vector &residual;
+   std::function<double(const mfem::Vector &x, const mfem::Vector &y)> dot;
 
 public:
    const double phi0;
diff --git a/src/common/relaxed_newton.cpp b/src/common/relaxed_newton.cpp
index 111e7b3..887d7b3 100644
--- a/src/common/relaxed_newton.cpp
+++ b/src/common/relaxed_newton.cpp
@@ -78,7 +78,11 @@ double RelaxedNewton::ComputeScalingFactor(const mfem::Vector &x,
       }
    };
 
-   Phi phi(calcRes, x, c, r, *grad);
+   // the ranks must minimize the same function to agree on the scaling factor
+   auto dot = [&](const mfem::Vector &x, const mfem::Vector &y)
+   { return Dot(x, y); };
+
+   Phi phi(calcRes, x, c, r, *grad, dot);
 
    return ls->search(phi, phi.phi0, phi.dphi0, 1.0);
 }
-- 
2.43.0


From 6325bfad5c16e6b0f39aec2bd763f7dfbaa974cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 07/75] fix: bisection with a root at an end point, same-sign
 tiny values or NaNs

---
 src/utils/utils.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 4c345f1..3573182 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -294,11 +294,20 @@ double bisection(const std::function<double(double)> &func,
 {
    double fl = func(xl);
    double fr = func(xr);
-   if (fl * fr > 0.0)
+   // note: compares signs, because the product may underflow or be a NaN
+   if (!((fl <= 0.0 && fr >= 0.0) || (fl >= 0.0 && fr <= 0.0)))
    {
-      cerr << "bisection: func(xl)*func(xr) is positive." << endl;
+      cerr << "bisection: func(xl) and func(xr) have the same sign." << endl;
       throw(-1);
    }
+   if (abs(fl) <= ftol)
+   {
+      return xl;
+   }
+   if (abs(fr) <= ftol)
+   {
+      return xr;
+   }
    double xm = 0.5 * (xl + xr);
    double fm = func(xm);
    int iter = 0;
@@ -306,24 +315,20 @@ double bisection(const std::function<double(double)> &func,
    {
       iter++;
       // cout << "iter = " << iter << ": f(x) = " << fm << endl;
-      if (fm * fl < 0.0)
+      if ((fm < 0.0) != (fl < 0.0))
       {
          xr = xm;
          fr = fm;
       }
-      else if (fm * fr < 0.0)
+      else
       {
          xl = xm;
          fl = fm;
       }
-      else
-      {
-         break;
-      }
       xm = 0.5 * (xl + xr);
       fm = func(xm);
    }
-   if (iter >= maxiter)
+   if (!(abs(fm) <= ftol) && !(abs(xr - xl) <= xtol && !std::isnan(fm)))
    {
       cerr << "bisection: failed to find a solution in maxiter." << endl;
       throw(-1);
-- 
2.43.0


From 2d599ffefd1fa50858f8fc688410e30ccc3fdc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 08/75] fix: secant must not return a point that has not
 converged

---
 src/utils/utils.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 3573182..e2e034c 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -360,7 +360,8 @@ double secant(const std::function<double(double)> &func,
    x = x2;
    f = f2;
    int iter = 0;
-   while ((fabs(f) > ftol) && (iter < maxiter))
+   bool converged = fabs(f) <= ftol;
+   while (!converged && (iter < maxiter))
    {
       ++iter;
       try
@@ -368,10 +369,7 @@ double secant(const std::function<double(double)> &func,
          double dx = f2 * (x2 - x1) / (f2 - f1);
          x -= dx;
          f = func(x);
-         if (fabs(dx) < xtol)
-         {
-            break;
-         }
+         converged = fabs(f) <= ftol || (fabs(dx) < xtol && !std::isnan(f));
          x1 = x2;
          f1 = f2;
          x2 = x;
@@ -382,7 +380,7 @@ double secant(const std::function<double(double)> &func,
          cerr << "secant: " << exception.what() << endl;
       }
    }
-   if (iter > maxiter)
+   if (!converged)
    {
       throw MISOException("secant: maximum number of iterations exceeded");
    }
-- 
2.43.0


From f2ad3f40936f8498b3102ef567d33e5f158c9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 09/75] fix: label the final state with the number of steps
 taken

---
 src/common/abstract_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index c756032..13732f1 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -109,6 +109,8 @@ void AbstractSolver2::solveForState(const MISOInputs &inputs,
          ode->step(state, t, dt);
          if (iterationExit(ti, t, t_final, dt, state))
          {
+            /// `ti` counts the steps taken, as it does when `max-iter` is hit
+            ++ti;
             break;
          }
       }
-- 
2.43.0


From b1373537a523edf2d01931343886178aed2f75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 10/75] fix: log the initial state at the initial time

---
 src/common/abstract_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 13732f1..ab6a2e1 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -517,13 +517,14 @@ void AbstractSolver2::vectorJacobianProduct(const mfem::Vector &res_bar,
 
 void AbstractSolver2::initialHook(const mfem::Vector &state)
 {
+   const double t_initial = options["time-dis"].value("t-initial", 0.0);
    for (auto &pair : loggers)
    {
       auto &logger = pair.first;
       auto &options = pair.second;
       if (options.initial_state)
       {
-         logState(logger, state, "state", 0, 0.0, rank);
+         logState(logger, state, "state", 0, t_initial, rank);
       }
    }
 }
-- 
2.43.0


From f0b1fe949776669fa8681f6febda835d6395831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 11/75] fix: respect the final_state logging option in steady
 solves

---
 src/common/abstract_solver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index ab6a2e1..1d6ed4b 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -130,7 +130,11 @@ void AbstractSolver2::solveForState(const MISOInputs &inputs,
       for (auto &pair : loggers)
       {
          auto &logger = pair.first;
-         logState(logger, state, "state", 1, 1.0, rank);
+         auto &options = pair.second;
+         if (options.final_state)
+         {
+            logState(logger, state, "state", 1, 1.0, rank);
+         }
       }
    }
 }
-- 
2.43.0


From 7ed6feda686fa5f513a9e2141e326ab8192bf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 12/75] fix: report an unknown ODE solver type without reading
 a missing option

---
 src/common/ode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index f4a4a82..327ccac 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -246,8 +246,7 @@ void FirstOrderODE::setTimestepper(const nlohmann::json &ode_options)
    }
    else
    {
-      throw MISOException("Unknown ODE solver type: " +
-                          ode_options["ode-solver"].get<std::string>());
+      throw MISOException("Unknown ODE solver type: " + timestepper);
       // TODO: parallel exit
    }
    ode_solver_->Init(*this);
-- 
2.43.0


From 9e8a69b4698027ab4731fe8998f0e0c7fd71e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 13/75] fix: SumOfOperators with zero weights, rectangular
 operators or a new definition

---
 src/common/matrix_operators.cpp | 36 +++++++++++++--------------------
 src/common/matrix_operators.hpp |  2 +-
 2 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 6412dac..fa708d2 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -11,18 +11,9 @@ SumOfOperators::SumOfOperators(double alpha,
                                Operator &oper1,
                                double beta,
                                Operator &oper2)
- : Operator(oper1.Height(), oper1.Width()),
-   a(alpha),
-   b(beta),
-   oper_a(&oper1),
-   oper_b(&oper2),
-   work_vec(oper1.Width())
+ : SumOfOperators(oper1.Height(), oper1.Width())
 {
-   if ((oper_a->Height() != oper_b->Height()) ||
-       (oper_a->Width() != oper_b->Width()))
-   {
-      throw MISOException("SumOfOperators: Operator sizes are incompatible!\n");
-   }
+   Add(alpha, oper1, beta, oper2);
 }
 
 void SumOfOperators::Add(double alpha,
@@ -30,6 +21,12 @@ void SumOfOperators::Add(double alpha,
                          double beta,
                          Operator &oper2)
 {
+   if ((oper1.Height() != oper2.Height()) || (oper1.Width() != oper2.Width()))
+   {
+      throw MISOException("SumOfOperators: Operator sizes are incompatible!\n");
+   }
+   height = oper1.Height();
+   width = oper1.Width();
    a = alpha;
    b = beta;
    oper_a = &oper1;
@@ -38,25 +35,20 @@ void SumOfOperators::Add(double alpha,
 
 void SumOfOperators::Mult(const Vector &x, Vector &y) const
 {
-   y.SetSize(x.Size());
+   y.SetSize(height);
+   work_vec.SetSize(height);
+   y = 0.0;
    const double zero = 1e-16;
    if (fabs(a) > zero)
    {
       oper_a->Mult(x, work_vec);
-      if (fabs(a - 1.0) > zero)
-      {
-         work_vec *= a;
-      }
+      y.Add(a, work_vec);
    }
    if (fabs(b) > zero)
    {
-      oper_b->Mult(x, y);
-      if (fabs(b - 1.0) > zero)
-      {
-         y *= b;
-      }
+      oper_b->Mult(x, work_vec);
+      y.Add(b, work_vec);
    }
-   y += work_vec;
 }
 
 JacobianFree::JacobianFree(MISOResidual &residual)
diff --git a/src/common/matrix_operators.hpp b/src/common/matrix_operators.hpp
index 66ad0d7..de5efbe 100644
--- a/src/common/matrix_operators.hpp
+++ b/src/common/matrix_operators.hpp
@@ -21,7 +21,7 @@ public:
       b(0.0),
       oper_a(nullptr),
       oper_b(nullptr),
-      work_vec(width)
+      work_vec(height)
    { }
 
    /// Construct an empty operator with a pre-defined height
-- 
2.43.0


From df40ec16c357bf3260bb74cece3718e5df9b0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 14/75] fix: JacobianFree with zero scaling must not add to the
 old result

---
 src/common/matrix_operators.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index fa708d2..3207aae 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -80,6 +80,7 @@ void JacobianFree::setState(const MISOInputs &inputs)
 
 void JacobianFree::Mult(const mfem::Vector &x, mfem::Vector &y) const
 {
+   y = 0.0;
    if (fabs(scale) > zero)
    {
       // apply the Jacobian-free operator
-- 
2.43.0


From bb759722c5e2fa12aadf3c2bf95064faebd3fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 15/75] fix: JacobianFree must not scale the block its residual
 owns, nor read a missing explicit block

---
 src/common/matrix_operators.cpp | 42 ++++++++++++++++++++-------------
 src/common/matrix_operators.hpp |  5 ++++
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 3207aae..da4c954 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -119,31 +119,41 @@ mfem::Operator &JacobianFree::getDiagonalBlock(int i) const
           "BlockOperator!\n");
    }
 
+   // The residual owns `jac` and may hand it out again, so work on a copy
+   auto &block = diag_blocks[i];
+   Operator *exp_block = nullptr;
+   if (block_op != nullptr && !block_op->IsZeroBlock(i, i))
+   {
+      exp_block = &block_op->GetBlock(i, i);
+   }
+
    // Case 1: HypreParMatrix
-   HypreParMatrix *hypre_jac = dynamic_cast<HypreParMatrix *>(&jac);
-   if (hypre_jac)
+   auto *hypre_jac = dynamic_cast<HypreParMatrix *>(&jac);
+   auto *hypre_exp = dynamic_cast<HypreParMatrix *>(exp_block);
+   if (hypre_jac != nullptr && (exp_block == nullptr || hypre_exp != nullptr))
    {
-      *hypre_jac *= scale;
-      if (block_op)
+      auto copy = std::make_unique<HypreParMatrix>(*hypre_jac);
+      *copy *= scale;
+      if (hypre_exp != nullptr)
       {
-         Operator &exp_block = block_op->GetBlock(i, i);
-         HypreParMatrix *hypre_exp = dynamic_cast<HypreParMatrix *>(&exp_block);
-         *hypre_jac += *hypre_exp;
+         copy->Add(block_op->GetBlockCoef(i, i), *hypre_exp);
       }
-      return jac;
+      block = std::move(copy);
+      return *block;
    }
    // Case 2: DenseMatrix
-   DenseMatrix *dense_jac = dynamic_cast<DenseMatrix *>(&jac);
-   if (dense_jac)
+   auto *dense_jac = dynamic_cast<DenseMatrix *>(&jac);
+   auto *dense_exp = dynamic_cast<DenseMatrix *>(exp_block);
+   if (dense_jac != nullptr && (exp_block == nullptr || dense_exp != nullptr))
    {
-      *dense_jac *= scale;
-      if (block_op)
+      auto copy = std::make_unique<DenseMatrix>(*dense_jac);
+      *copy *= scale;
+      if (dense_exp != nullptr)
       {
-         Operator &exp_block = block_op->GetBlock(i, i);
-         DenseMatrix *dense_exp = dynamic_cast<DenseMatrix *>(&exp_block);
-         *dense_jac += *dense_exp;
+         copy->Add(block_op->GetBlockCoef(i, i), *dense_exp);
       }
-      return jac;
+      block = std::move(copy);
+      return *block;
    }
    // If we get here, there was some kind of problem
    throw MISOException(
diff --git a/src/common/matrix_operators.hpp b/src/common/matrix_operators.hpp
index de5efbe..11c093a 100644
--- a/src/common/matrix_operators.hpp
+++ b/src/common/matrix_operators.hpp
@@ -1,6 +1,9 @@
 #ifndef MISO_MATRIX_OPERATORS
 #define MISO_MATRIX_OPERATORS
 
+#include <map>
+#include <memory>
+
 #include "mfem.hpp"
 #include "nlohmann/json.hpp"
 
@@ -261,6 +264,8 @@ private:
    mfem::Vector res_at_state;
    /// work vector needed to compute the Jacobian-free product
    mutable mfem::Vector state_pert;
+   /// diagonal blocks last returned by `getDiagonalBlock`
+   mutable std::map<int, std::unique_ptr<mfem::Operator>> diag_blocks;
 
    /// Returns a (hopefully) appropriate forward-difference step size
    /// \param[in] baseline - the state at which the Jacobian is computed
-- 
2.43.0


From 3dd61dbaaa61cdf3b2f3f2e2477c1200d4d787e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 16/75] fix: pass the spatial preconditioner through
 TimeDependentResidual

---
 src/common/ode.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/ode.hpp b/src/common/ode.hpp
index 131c4f3..1d14c14 100644
--- a/src/common/ode.hpp
+++ b/src/common/ode.hpp
@@ -42,8 +42,7 @@ public:
    friend double calcSupplyRate(TimeDependentResidual &residual,
                                 const MISOInputs &inputs);
 
-   friend mfem::Solver *getPreconditioner(TimeDependentResidual &residual,
-                                          const nlohmann::json &options)
+   friend mfem::Solver *getPreconditioner(TimeDependentResidual &residual)
    {
       return getPreconditioner(residual.spatial_res_);
    }
-- 
2.43.0


From 19cceb6fb70047d07b7c1dbda7d445160db19108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 17/75] fix: report mass matrix and Jacobian types that cannot
 be combined

---
 src/common/ode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index 327ccac..d146a76 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -44,6 +44,8 @@ void addJacobians(mfem::Operator &A,
       sum_C->Add(1.0, A, dt, B);
       return;
    }
+   throw MISOException(
+       "addJacobians: incompatible mass matrix and spatial Jacobian types!\n");
 }
 
 }  // namespace miso
-- 
2.43.0


From 8b91dea6c5da686c1bd3f17162d6eeffaf090471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 18/75] fix: scale the segment SBP shape functions consistently
 away from the nodes

The projection of the nodal basis onto the orthogonal polynomials used the
factor sqrt(2) in the generalized Vandermonde matrix but 2 when evaluating
the polynomials, so interpolating any field off the nodes was wrong by
sqrt(2).
---
 src/common/sbp_fe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index bc4de9c..10fc5f5 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -453,7 +453,7 @@ void SBPSegmentElement::CalcShape(const IntegrationPoint &ip,
       for (int i = 0; i <= order; ++i)
       {
          miso::jacobiPoly(xvec, 0.0, 0.0, i, poly);
-         poly *= 2.0;  // scale to mfem reference element
+         poly *= sqrt(2.0);  // scale to mfem reference element
          for (int k = 0; k < GetDof(); ++k)
          {
             shape(k) += poly(0) * V(k, ptr) * H(k);
-- 
2.43.0


From 0d57cff3c51b7512f647f3e5d5aa85646cd9d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 19/75] fix: scale rows of the SBP derivative in CalcDShape by
 the norm of the point

dshape(j,:) holds D(i,j) = Q(i,j)/H(i) for the point i, but each entry was
divided by H(j). A point that is not a node indexed column -1 of Q; report it
as getIntegrationPointIndex does.
---
 src/common/sbp_fe.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index 10fc5f5..fb1fe1a 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -497,13 +497,19 @@ void SBPSegmentElement::CalcDShape(const IntegrationPoint &ip,
          }
       }
    }
+   if (ipIdx < 0)
+   {
+      throw miso::MISOException(
+          "SBPSegmentElement::CalcDShape(ip)\n"
+          "\tprovided ip is not a node of given element!");
+   }
    // TODO: I think we can make tempVec an empty Vector, since it is just a
    // reference
    dshape = 0.0;
    Vector tempVec(dof);
    Q[0].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(0, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 // //////////////////////////////////////////////////////////////////////////
@@ -916,6 +922,12 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
          }
       }
    }
+   if (ipIdx < 0)
+   {
+      throw miso::MISOException(
+          "SBPTriangleElement::CalcDShape(ip)\n"
+          "\tprovided ip is not a node of given element!");
+   }
    dshape = 0.0;
 
    Vector tempVec(dof);
@@ -923,7 +935,7 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
    dshape.SetCol(0, tempVec);
    Q[1].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(1, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 SBPTetrahedronElement::SBPTetrahedronElement(const int degree, const int num_nodes)
@@ -1112,6 +1124,12 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
          }
       }
    }
+   if (ipIdx < 0)
+   {
+      throw miso::MISOException(
+          "SBPTetrahedronElement::CalcDShape(ip)\n"
+          "\tprovided ip is not a node of given element!");
+   }
    dshape = 0.0;
 
    Vector tempVec(dof);
@@ -1121,7 +1139,7 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
    dshape.SetCol(1, tempVec);
    Q[2].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(2, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 SBPCollection::SBPCollection(const int p, const int dim)
-- 
2.43.0


From 09bc63d07de7d33d3121dddce63a3d14ef3681e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 20/75] fix: use alpha - beta in the degree-one Jacobi
 polynomial

The recurrence started from alpha + beta, contrary to the comment above it,
so every Jacobi polynomial with beta != 0 was wrong.
---
 src/common/orthopoly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/orthopoly.cpp b/src/common/orthopoly.cpp
index 6d775c4..f248981 100644
--- a/src/common/orthopoly.cpp
+++ b/src/common/orthopoly.cpp
@@ -83,7 +83,7 @@ void jacobiPoly(const Vector &x,
    double gamma1 = (alpha + 1) * (beta + 1) * gamma0 / (alpha + beta + 3);
    // Set poly_1(:) = ((alpha+beta+2)*x(:) + (alpha-beta))*0.5/sqrt(gamma1)
    Vector poly_1(size);
-   poly_1 = alpha + beta;
+   poly_1 = alpha - beta;
    add(poly_1, alpha + beta + 2, x, poly_1);
    poly_1 *= 0.5 / sqrt(gamma1);
    if (degree == 1)
-- 
2.43.0


From 444b63a9c769970fc362407efe69fb85f30d9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 21/75] fix: order segment nodes consistently with the edges of
 the triangle element

For degrees 3 and 4 the interior nodes of SBPSegmentElement came in a
different order from those on the edges of SBPTriangleElement, so the degrees
of freedom of boundary elements were associated with the wrong points.
---
 src/common/sbp_fe.cpp | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index fb1fe1a..c516610 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -360,18 +360,31 @@ SBPSegmentElement::SBPSegmentElement(const int degree)
    Nodes.IntPoint(0).weight = wts(0);
    Nodes.IntPoint(1).x = pts(num_nodes - 1);
    Nodes.IntPoint(1).weight = wts(num_nodes - 1);
-   for (int i = 0; i < (num_nodes - 2) / 2; ++i)
+   // The interior nodes follow the ordering of the triangle element's edges: the
+   // mid-point, if any, and then pairs of nodes from the middle outwards. `node`
+   // maps the ordering used by the operators, i.e. pairs of nodes inwards and
+   // then the mid-point, to this ordering.
+   const int num_pairs = (num_nodes - 2) / 2;
+   const int num_mid = num_nodes % 2;
+   Array<int> node(num_nodes);
+   node[0] = 0;
+   node[1] = 1;
+   for (int i = 0; i < num_pairs; ++i)
    {
-      Nodes.IntPoint(2 * (i + 1)).x = pts(i + 1);
-      Nodes.IntPoint(2 * (i + 1)).weight = wts(i + 1);
-      Nodes.IntPoint(2 * (i + 1) + 1).x = 1.0 - pts(i + 1);
-      Nodes.IntPoint(2 * (i + 1) + 1).weight = wts(i + 1);
-   }
-   if (num_nodes % 2 == 1)
+      const int first = 2 + num_mid + 2 * (num_pairs - 1 - i);
+      node[2 * (i + 1)] = first;
+      node[2 * (i + 1) + 1] = first + 1;
+      Nodes.IntPoint(first).x = pts(i + 1);
+      Nodes.IntPoint(first).weight = wts(i + 1);
+      Nodes.IntPoint(first + 1).x = 1.0 - pts(i + 1);
+      Nodes.IntPoint(first + 1).weight = wts(i + 1);
+   }
+   if (num_mid == 1)
    {
       // Account for mid-point node
-      Nodes.IntPoint(num_nodes - 1).x = pts((num_nodes - 1) / 2);
-      Nodes.IntPoint(num_nodes - 1).weight = wts((num_nodes - 1) / 2);
+      node[num_nodes - 1] = 2;
+      Nodes.IntPoint(2).x = pts((num_nodes - 1) / 2);
+      Nodes.IntPoint(2).weight = wts((num_nodes - 1) / 2);
    }
 
    // Populate the Q[0] matrix
@@ -398,6 +411,16 @@ SBPSegmentElement::SBPSegmentElement(const int degree)
       break;
    }
 
+   // Reorder the operator consistently with the nodes
+   const DenseMatrix Q_data(Q[0]);
+   for (int i = 0; i < num_nodes; ++i)
+   {
+      for (int j = 0; j < num_nodes; ++j)
+      {
+         Q[0](node[i], node[j]) = Q_data(i, j);
+      }
+   }
+
    // populate unordered_map with mapping from IntPoint address to index
    for (int i = 0; i < num_nodes; ++i)
    {
-- 
2.43.0


From 873fe64fc0e3eb2303199d19dd43ed9a8ad9f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 22/75] fix: team13 B-H curve: control points and knots were
 exchanged

---
 src/common/material_library.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/material_library.cpp b/src/common/material_library.cpp
index 4263c50..4bff991 100644
--- a/src/common/material_library.cpp
+++ b/src/common/material_library.cpp
@@ -148,7 +148,7 @@ const auto team13 = R"(
 {
    "reluctivity": {
       "bh": {
-         "cps": [
+         "knots": [
             0.0,
             0.0,
             0.0,
@@ -163,7 +163,7 @@ const auto team13 = R"(
             2.22
          ],
          "degree": 3,
-         "knots": [
+         "cps": [
             0.0,
             164.46362274610001,
             301.3546318106,
-- 
2.43.0


From 695954da199c825379dac4a214ac789af71a0604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 23/75] fix: merge component materials in both PDESolver
 constructors

---
 src/physics/pde_solver.cpp | 48 ++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/physics/pde_solver.cpp b/src/physics/pde_solver.cpp
index 991f102..e3c7a14 100644
--- a/src/physics/pde_solver.cpp
+++ b/src/physics/pde_solver.cpp
@@ -93,6 +93,33 @@
 
 // }  // namespace
 
+namespace
+{
+/// \brief loop over all components specified in options and add their
+/// specified materials to the solver's known material library
+/// \param[in] solver_options - options that may specify "components"
+/// \param[inout] materials - the solver's material library
+void addComponentMaterials(const nlohmann::json &solver_options,
+                           nlohmann::json &materials)
+{
+   if (!solver_options.contains("components"))
+   {
+      return;
+   }
+   for (const auto &component : solver_options["components"])
+   {
+      const auto &material = component["material"];
+      if (material.is_string())
+      {
+         continue;
+      }
+      const auto &material_name = material["name"].get<std::string>();
+      materials[material_name].merge_patch(material);
+   }
+}
+
+}  // namespace
+
 namespace miso
 {
 #ifdef MFEM_USE_PUMI
@@ -345,24 +372,7 @@ PDESolver::PDESolver(MPI_Comm incomm,
    mesh_(constructMesh(comm, options["mesh"], std::move(smesh))),
    materials(material_library)
 {
-   /// loop over all components specified in options and add their specified
-   /// materials to the solver's known material library
-   if (solver_options.contains("components"))
-   {
-      for (const auto &component : solver_options["components"])
-      {
-         const auto &material = component["material"];
-         if (material.is_string())
-         {
-            continue;
-         }
-         else
-         {
-            const auto &material_name = material["name"].get<std::string>();
-            materials[material_name].merge_patch(material);
-         }
-      }
-   }
+   addComponentMaterials(solver_options, materials);
 
    fields.emplace(
        "state",
@@ -396,6 +406,8 @@ PDESolver::PDESolver(
    mesh_(constructMesh(comm, options["mesh"], std::move(smesh))),
    materials(material_library)
 {
+   addComponentMaterials(solver_options, materials);
+
    int ns = num_states(solver_options, mesh().SpaceDimension());
    fields.emplace(
        "state", FiniteElementState(mesh(), options["space-dis"], ns, "state"));
-- 
2.43.0


From 77e5cacfcfaf8d740f5561fed5ff4ad82ea5f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:41 +0000
Subject: [PATCH 24/75] fix: give the parts of the wire mixtures the dkappa_df
 data the mixtures refer to

---
 src/common/material_library.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/material_library.cpp b/src/common/material_library.cpp
index 4bff991..8a7cf78 100644
--- a/src/common/material_library.cpp
+++ b/src/common/material_library.cpp
@@ -281,7 +281,8 @@ const auto copper = R"(
    "rho": 8960,
    "drho_df": 8960,
    "cv": 376,
-   "kappa": 400
+   "kappa": 400,
+   "dkappa_df": 400
 }
 )"_json;
 
@@ -324,7 +325,8 @@ const auto aluminum = R"(
 {
    "rho": 2700,
    "drho_df": 2700,
-   "kappa": 237
+   "kappa": 237,
+   "dkappa_df": 237
 }
 )"_json;
 
@@ -367,7 +369,8 @@ const auto silver = R"(
 {
    "rho": 10490,
    "drho_df": 10490,
-   "kappa": 429
+   "kappa": 429,
+   "dkappa_df": 429
 }
 )"_json;
 
@@ -411,7 +414,8 @@ const auto magnesium = R"(
 {
    "rho": 1740,
    "drho_df": 1740,
-   "kappa": 156
+   "kappa": 156,
+   "dkappa_df": 156
 }
 )"_json;
 
@@ -454,7 +458,8 @@ const auto iron = R"(
 {
    "rho": 7874,
    "drho_df": 7874,
-   "kappa": 79.5
+   "kappa": 79.5,
+   "dkappa_df": 79.5
 }
 )"_json;
 
@@ -462,7 +467,8 @@ const auto epoxy = R"(
 {
    "rho": 1200,
    "drho_df": 1200,
-   "kappa": 1
+   "kappa": 1,
+   "dkappa_df": 1
 }
 )"_json;
 
-- 
2.43.0


From 34d9c943122f14fc6c43224ee3d5a592f190a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 25/75] fix: hyprefgmres ignored the absolute tolerance it was
 given

---
 src/common/mfem_extensions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/mfem_extensions.cpp b/src/common/mfem_extensions.cpp
index 9d72388..625b4f1 100644
--- a/src/common/mfem_extensions.cpp
+++ b/src/common/mfem_extensions.cpp
@@ -439,6 +439,8 @@ std::unique_ptr<mfem::Solver> constructLinearSolver(
    {
       auto fgmres = std::make_unique<mfem::HypreFGMRES>(comm);
       fgmres->SetTol(reltol);
+      // mfem's wrapper has no `SetAbsTol`, so tell hypre directly
+      HYPRE_ParCSRFlexGMRESSetAbsoluteTol(*fgmres, abstol);
       fgmres->SetMaxIter(maxiter);
       fgmres->SetPrintLevel(ptl);
       if (kdim != -1)
-- 
2.43.0


From 9990827a2fa6398e5b38eba245af821763ad51b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 26/75] fix: differentiate the projector's quadrature when
 computing its mesh sensitivity

---
 src/utils/irrotational_projector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/irrotational_projector.cpp b/src/utils/irrotational_projector.cpp
index fb59dca..ee66eee 100644
--- a/src/utils/irrotational_projector.cpp
+++ b/src/utils/irrotational_projector.cpp
@@ -42,6 +42,10 @@ IrrotationalProjector::IrrotationalProjector(ParFiniteElementSpace &h1_fes,
    auto &mesh_fes = *x_nodes.ParFESpace();
    mesh_sens.Update(&mesh_fes);
 
+   /// differentiate the quadrature the forms above use
+   diff_mesh_sens->SetIntRule(ir);
+   div_mesh_sens->SetIntRule(ir);
+
    mesh_sens.AddDomainIntegrator(diff_mesh_sens);
 
    mesh_sens.AddDomainIntegrator(div_mesh_sens);
-- 
2.43.0


From 48890f104e98b0e7635552e778ad3ab978f666b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 27/75] fix: reject attributes the mesh does not have instead
 of writing past the marker

---
 src/utils/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index e2e034c..c4d4391 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -132,6 +132,11 @@ void attrVecToArray(const std::vector<int> &vec_attributes,
    attributes = 0;
    for (const auto &attr : vec_attributes)
    {
+      if (attr < 1 || attr > attributes.Size())
+      {
+         throw MISOException("Attribute " + std::to_string(attr) +
+                             " is not an attribute of the mesh!");
+      }
       attributes[attr - 1] = 1;
    }
 }
-- 
2.43.0


From d62ba2d7bdf5af5a250ce1ec1479b701df8d25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 28/75] fix: restrict domain terms of nonlinear forms to the
 attributes given

---
 src/physics/miso_nonlinearform.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/miso_nonlinearform.hpp b/src/physics/miso_nonlinearform.hpp
index 091d207..4a3dbec 100644
--- a/src/physics/miso_nonlinearform.hpp
+++ b/src/physics/miso_nonlinearform.hpp
@@ -234,13 +234,13 @@ void MISONonlinearForm::addDomainIntegrator(T *integrator)
 template <typename T>
 void MISONonlinearForm::addDomainIntegrator(
     T *integrator,
-    const std::vector<int> &bdr_attr_marker)
+    const std::vector<int> &attr_marker)
 {
    integs.emplace_back(*integrator);
-   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->bdr_attributes.Max();
+   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->attributes.Max();
    auto &marker = domain_markers.emplace_back(mesh_attr_size);
-   attrVecToArray(bdr_attr_marker, marker);
-   nf.AddDomainIntegrator(integrator);
+   attrVecToArray(attr_marker, marker);
+   nf.AddDomainIntegrator(integrator, marker);
    addDomainSensitivityIntegrator(*integrator,
                                   nf_fields,
                                   rev_sens,
-- 
2.43.0


From 8cbe76179796fef0f34305c6f13a0b2fd37e3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 29/75] fix: copying a non-const MISOIntegrator refers to the
 same integrator

---
 src/physics/miso_integrator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/physics/miso_integrator.hpp b/src/physics/miso_integrator.hpp
index 39ad579..ecd5cc4 100644
--- a/src/physics/miso_integrator.hpp
+++ b/src/physics/miso_integrator.hpp
@@ -65,6 +65,9 @@ public:
    MISOIntegrator(T &x) : self_(new model<T>(x))
    { }
    MISOIntegrator(const MISOIntegrator &x) : self_(x.self_->copy_()) { }
+   /// without this overload copying a non-const MISOIntegrator would select the
+   /// template above and refer to the copied wrapper instead of its integrator
+   MISOIntegrator(MISOIntegrator &x) : self_(x.self_->copy_()) { }
    MISOIntegrator(MISOIntegrator &&) noexcept = default;
 
    MISOIntegrator &operator=(const MISOIntegrator &x)
-- 
2.43.0


From 12cf1aa77d1b88974005aff2041961f2ce45388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 30/75] fix: entropy flux helper asks for the entropy variables
 of a conservative state

---
 src/physics/fluidflow/euler_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 213e4db..c9fbed9 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -224,7 +224,7 @@ inline xdouble entropy(const xdouble *q, const xdouble *qe)
    xdouble ent_ref = entropy<xdouble, dim>(qe);
    ent -= ent_ref;
    xdouble we[dim + 2];
-   calcEntropyVars<xdouble, dim>(qe, we);
+   calcEntropyVars<xdouble, dim, false>(qe, we);
    for (int i = 0; i < dim + 2; ++i)
       ent -= we[i] * (q[i] - qe[i]);
    return ent;
-- 
2.43.0


From a5c1ed6a12974d411f61809174e38a4718dbbc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 31/75] fix: dpressdq writes to its output, so the output is
 not const

---
 src/physics/fluidflow/euler_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index c9fbed9..29dae28 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -57,7 +57,7 @@ inline xdouble pressure(const xdouble *q)
 /// \tparam xdouble - either double or adouble
 /// \tparam dim - number of physical dimensions
 template <typename xdouble, int dim>
-void dpressdq(const xdouble *q, const xdouble *dpdq)
+void dpressdq(const xdouble *q, xdouble *dpdq)
 {
    xdouble phi = 0.0;
    for (int i = 0; i < dim; ++i)
-- 
2.43.0


From 976cce80718b75b66d40ac42c95e775a243157f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 32/75] fix: 3-D viscous MMS solution reads the third
 coordinate, not a fourth one

---
 src/physics/fluidflow/navier_stokes_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 4347f77..3888c28 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -372,7 +372,7 @@ void viscousMMSExact(int dim, const xdouble *x, xdouble *u)
             const double w_0 = 0.5;
             const double T_0 = 1.0;
 
-            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[3]);
+            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[2]);
             u[1] = u_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[2] = v_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[3] = w_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
-- 
2.43.0


From 2681022c5c79d992aa33574ca3b27f56e7994433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 33/75] fix: 3-D viscous MMS energy source uses the z velocity,
 not the z coordinate

---
 src/physics/fluidflow/navier_stokes_fluxes.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 3888c28..58a9645 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -489,35 +489,35 @@ void calcViscousMMS(int dim, double mu, double Pr, const xdouble *x, xdouble *sr
                 - 6*w_0*x[0]*(x[0] - 1)*(u_0*x[2]*(x[2] - 1) + w_0*x[0]*(x[0] - 1)) - 6*w_0*x[1]*(x[1] - 1)*(v_0*x[2]*(x[2] - 1) + w_0*x[1]*(x[1] - 1)) 
                 + 4.0*w_0*x[2]*(x[2] - 1)*(u_0*x[0]*(x[0] - 1) + v_0*x[1]*(x[1] - 1) - 2*w_0*x[2]*(x[2] - 1))) + r_0*u_0*x[0]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
-                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + 36*pow(x[2], 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*u_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*v_0*x[1]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*v_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*w_0*x[2]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*w_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
                 + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 2*x[2]*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(pow(u_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(v_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) 
-                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + 6)))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
+                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(w_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
             // src[0] = 10.0;
             // src[1] = 11.0;
             // src[2] = 12.0;
-- 
2.43.0


From 8b2a584b3dc8e417025a040450be89ebedbcbcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 34/75] fix: 3-D inviscid MMS solution squares the sine, as the
 source term assumes

---
 src/physics/fluidflow/euler_fluxes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 29dae28..bd789ae 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1289,9 +1289,9 @@ void InviscidMMSExact(int dim, const xdouble *x, xdouble *u)
          const double scale = 1.0;
          const double T0    = 1.0;
          const double Tp    = 0.1;
-         u[0] = rho0 + rhop*(sin(M_PI*pow((x[0] + trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
-         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*(sin(M_PI*pow((x[0]+trans)/scale,2.0)));
-         u[2] = -up*(sin(2*M_PI*pow((x[0]+trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
+         u[0] = rho0 + rhop*pow(sin(M_PI*(x[0]+trans)/scale),2.0)*sin(M_PI*(x[1]+trans)/scale);
+         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*pow(sin(M_PI*(x[0]+trans)/scale),2.0);
+         u[2] = -up*pow(sin(2*M_PI*(x[0]+trans)/scale),2.0)*sin(M_PI*(x[1]+trans)/scale);
          u[3] = 0.0;
          double Tem  = T0 + Tp*(pow(((x[0]+trans)/scale),4.0) - 2.0*pow(((x[0]+trans)/scale),3.0) + pow(((x[0]+trans)/scale),2.0) 
                      + pow(((x[1]+trans)/scale),4.0) - 2.0*pow(((x[1]+trans)/scale),3.0) + pow(((x[1]+trans)/scale),2.0));
-- 
2.43.0


From 0558b151ca34e13638da9c5d609801edc1dae16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 35/75] fix: boundary surface nodes are indexed by surface
 element, not by volume boundary element

---
 src/common/surface_def.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/surface_def.hpp b/src/common/surface_def.hpp
index 342f938..160c8d4 100644
--- a/src/common/surface_def.hpp
+++ b/src/common/surface_def.hpp
@@ -137,6 +137,7 @@ Surface<dim>::Surface(mfem::Mesh &vol_mesh, mfem::Array<int> &bdr_attr_marker)
          Array<int> vdofs;
          Array<int> bvdofs;
          Vector v;
+         int bel = 0;  // element of the boundary mesh
          for (int i = 0; i < vol_mesh.GetNBE(); i++)
          {
             int bdr_attr = vol_mesh.GetBdrAttribute(i);
@@ -148,7 +149,7 @@ Surface<dim>::Surface(mfem::Mesh &vol_mesh, mfem::Array<int> &bdr_attr_marker)
             fes->GetBdrElementVDofs(i, vdofs);
             vol_mesh.GetNodes()->GetSubVector(vdofs, v);
 
-            fes_copy->GetElementVDofs(i, bvdofs);
+            fes_copy->GetElementVDofs(bel++, bvdofs);
             bdr_nodes->SetSubVector(bvdofs, v);
          }
       }
-- 
2.43.0


From 30bd0ea9d87779cb2ebef1aae2bdf8e2997436d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 36/75] fix: distance to a surface considers every element that
 can be closest

---
 src/common/surface_def.hpp | 45 ++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/common/surface_def.hpp b/src/common/surface_def.hpp
index 160c8d4..2fc9250 100644
--- a/src/common/surface_def.hpp
+++ b/src/common/surface_def.hpp
@@ -1,6 +1,10 @@
 #ifndef MISO_SURFACE_DEF
 #define MISO_SURFACE_DEF
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "mfem.hpp"
 
 #include "kdtree.hpp"
@@ -192,13 +196,46 @@ double Surface<dim>::calcDistance(const mfem::Vector &x)
 {
    using namespace mfem;
    const FiniteElementSpace *fes = mesh->GetNodalFESpace();
-   // search for the element whose center is closest to x
+   const GridFunction &nodes = *mesh->GetNodes();
+   // start with an element that has the node closest to x
    int i = tree.nearest(x);
-   int e = fes->GetElementForDof(i);
+   int first = fes->GetElementForDof(i);
 
    // Apply Newton's method to find the closest point in ref space
-   ElementTransformation *trans = fes->GetElementTransformation(e);
-   double dist = solveDistance(*trans, x);
+   double dist = solveDistance(*fes->GetElementTransformation(first), x);
+
+   // the closest point may lie on another element: on one that shares the node,
+   // or on one whose nodes are further away; skip those that are too far
+   Array<int> dofs;
+   for (int e = 0; e < mesh->GetNE(); ++e)
+   {
+      if (e == first)
+      {
+         continue;
+      }
+      fes->GetElementDofs(e, dofs);
+      double size = 0.0;
+      double closest = std::numeric_limits<double>::max();
+      for (int k = 0; k < dofs.Size(); ++k)
+      {
+         double to_x = 0.0;
+         double to_first = 0.0;
+         for (int d = 0; d < dim; ++d)
+         {
+            const double node = nodes(fes->DofToVDof(dofs[k], d));
+            const double node0 = nodes(fes->DofToVDof(dofs[0], d));
+            to_x += (node - x(d)) * (node - x(d));
+            to_first += (node - node0) * (node - node0);
+         }
+         closest = std::min(closest, sqrt(to_x));
+         size = std::max(size, sqrt(to_first));
+      }
+      if (closest - size < dist)
+      {
+         dist = std::min(
+             dist, solveDistance(*fes->GetElementTransformation(e), x));
+      }
+   }
    return dist;
 }
 
-- 
2.43.0


From 2920f2a9595993f39d0fa0ab96f8eed37fc29db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 37/75] fix: vector Lp error uses the size of the selected
 component's error

---
 src/physics/finite_element_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/finite_element_state.cpp b/src/physics/finite_element_state.cpp
index 7646152..bc86cd1 100644
--- a/src/physics/finite_element_state.cpp
+++ b/src/physics/finite_element_state.cpp
@@ -285,7 +285,7 @@ double calcLpError(const FiniteElementState &state,
       {
          const auto &ip = ir->IntPoint(j);
          T->SetIntPoint(&ip);
-         double ip_error = loc_errs(j);
+         double ip_error = fabs(loc_errs(j));
          if (p < mfem::infinity())
          {
             ip_error = pow(ip_error, p);
-- 
2.43.0


From eb243ca97561c4b3e7c143eaf1216e5c697316c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:12 +0000
Subject: [PATCH 38/75] fix: state errors of distributed vectors are summed
 over all ranks

---
 src/common/abstract_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 1d6ed4b..2261f56 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -61,7 +61,7 @@ double AbstractSolver2::calcStateError_(std::any ex_sol,
           work.SetSize(state.Size());
           fun(work);
           subtract(work, state, work);
-          return work.Norml2();
+          return mfem::GlobalLpNorm(2, work.Norml2(), comm);
        },
        [&](mfem::Vector &vec)
        {
@@ -74,7 +74,7 @@ double AbstractSolver2::calcStateError_(std::any ex_sol,
           }
           work.SetSize(state.Size());
           subtract(vec, state, work);
-          return work.Norml2();
+          return mfem::GlobalLpNorm(2, work.Norml2(), comm);
        });
 }
 
-- 
2.43.0


From 861e41ef0ee40339e9dc92ae217b6b60461a3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 39/75] fix: state functional sizes the basis function values
 it uses

---
 src/physics/mfem_common_integ.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 77259cd..e83d6df 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -299,6 +299,11 @@ double StateIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
                                          mfem::ElementTransformation &trans,
                                          const mfem::Vector &elfun)
 {
+#ifdef MFEM_THREAD_SAFE
+   mfem::Vector shape;
+#endif
+   shape.SetSize(el.GetDof());
+
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
@@ -318,6 +323,11 @@ void StateIntegrator::AssembleElementVector(const mfem::FiniteElement &el,
                                             const mfem::Vector &elfun,
                                             mfem::Vector &elfun_bar)
 {
+#ifdef MFEM_THREAD_SAFE
+   mfem::Vector shape;
+#endif
+   shape.SetSize(el.GetDof());
+
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
-- 
2.43.0


From ad0bef159bf46c2b6b9bfeffc68a38c0d06016e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 40/75] fix: mesh sensitivity of a domain load uses the
 quadrature rule of the load

---
 src/physics/mfem_common_integ.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index e83d6df..19135d7 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -3165,27 +3165,9 @@ void DomainLFIntegratorMeshRevSens::AssembleRHSElementVect(
    const IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = [&]()
-      {
-         if (el.Space() == FunctionSpace::Pk)
-         {
-            return 2 * el.GetOrder() - 2;
-         }
-         else
-         {
-            // order = 2*el.GetOrder() - 2;  // <-- this seems to work fine too
-            return 2 * el.GetOrder() + el.GetDim() - 1;
-         }
-      }();
-
-      if (el.Space() == FunctionSpace::rQk)
-      {
-         ir = &RefinedIntRules.Get(el.GetGeomType(), order);
-      }
-      else
-      {
-         ir = &IntRules.Get(el.GetGeomType(), order);
-      }
+      /// the rule DomainLFIntegrator evaluates the load with
+      const int order = 2 * el.GetOrder() - 2;
+      ir = &IntRules.Get(el.GetGeomType(), order);
    }
 
    auto &alpha = integ.alpha;
-- 
2.43.0


From e01b8cfc5b9e7b00701e8d580de6f4092f61d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 41/75] fix: thermal face terms use one quadrature rule for
 values and derivatives

---
 src/physics/thermal/thermal_integ.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 04c0f4e..8b1c7e7 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -748,7 +748,7 @@ double ThermalContactResistanceIntegratorHRevSens::GetFaceEnergy(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -916,7 +916,7 @@ void InternalConvectionInterfaceIntegrator::AssembleFaceGrad(
    const auto *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -1053,7 +1053,7 @@ void InternalConvectionInterfaceIntegratorMeshRevSens::AssembleRHSElementVect(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From 9018e72f11a5368c95babd5aab23ed29ac4ba4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 42/75] fix: mesh sensitivity of thermal boundary conditions on
 internal boundaries and in 3D

---
 src/physics/thermal/thermal_integ.cpp | 81 +++++++++++++++++++++------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 8b1c7e7..cce7dbc 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -7,6 +7,39 @@
 
 namespace miso
 {
+namespace
+{
+/// Add the derivative with respect to the nodes of a boundary face, ordered as
+/// the face, to \a mesh_coords_bar, which is ordered as boundary element
+/// \a bdr_elem (in three dimensions the two orderings may differ)
+void addFaceNodesBar(const mfem::Mesh &mesh,
+                     int bdr_elem,
+                     const mfem::DenseMatrix &PointMat_bar,
+                     mfem::Vector &mesh_coords_bar)
+{
+   const int ndof = PointMat_bar.Width();
+   mfem::Array<int> bdr_dofs;
+   mfem::Array<int> face_dofs;
+   if (mesh.GetNodalFESpace() != nullptr)
+   {
+      mesh.GetNodalFESpace()->GetBdrElementDofs(bdr_elem, bdr_dofs);
+      mesh.GetNodalFESpace()->GetFaceDofs(mesh.GetBdrElementEdgeIndex(bdr_elem),
+                                          face_dofs);
+   }
+   for (int j = 0; j < ndof; ++j)
+   {
+      const int i = face_dofs.Size() == ndof && bdr_dofs.Size() == ndof
+                        ? bdr_dofs.Find(face_dofs[j])
+                        : j;
+      for (int k = 0; k < PointMat_bar.Height(); ++k)
+      {
+         mesh_coords_bar(k * ndof + i) += PointMat_bar(k, j);
+      }
+   }
+}
+
+}  // anonymous namespace
+
 void TestBCIntegrator::AssembleFaceVector(
     const mfem::FiniteElement &el1,
     const mfem::FiniteElement &el2,
@@ -1470,8 +1503,17 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
     mfem::Vector &mesh_coords_bar)
 {
    const int element = mesh_trans.ElementNo;
-   auto &trans =
-       *state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   auto *face_trans =
+       state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   if (face_trans == nullptr)
+   {
+      /// the boundary element lies inside the domain, where the primal
+      /// integrator is not evaluated
+      mesh_coords_bar.SetSize(mesh_el.GetDof() * mesh_trans.GetSpaceDim());
+      mesh_coords_bar = 0.0;
+      return;
+   }
+   auto &trans = *face_trans;
    const int state_elem_num = trans.Elem1->ElementNo;
    const auto &el1 = *state.FESpace()->GetFE(state_elem_num);
 
@@ -1559,13 +1601,10 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
       trans.WeightRevDiff(trans_weight_bar, PointMat_bar);
 
       // code to insert PointMat_bar into mesh_coords_bar;
-      for (int j = 0; j < mesh_ndof; ++j)
-      {
-         for (int k = 0; k < space_dim; ++k)
-         {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
-         }
-      }
+      addFaceNodesBar(*state.FESpace()->GetMesh(),
+                      element,
+                      PointMat_bar,
+                      mesh_coords_bar);
    }
 }
 
@@ -1787,8 +1826,17 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
     mfem::Vector &mesh_coords_bar)
 {
    const int element = mesh_trans.ElementNo;
-   auto &trans =
-       *state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   auto *face_trans =
+       state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   if (face_trans == nullptr)
+   {
+      /// the boundary element lies inside the domain, where the primal
+      /// integrator is not evaluated
+      mesh_coords_bar.SetSize(mesh_el.GetDof() * mesh_trans.GetSpaceDim());
+      mesh_coords_bar = 0.0;
+      return;
+   }
+   auto &trans = *face_trans;
    const int state_elem_num = trans.Elem1->ElementNo;
    const auto &el1 = *state.FESpace()->GetFE(state_elem_num);
 
@@ -1873,13 +1921,10 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
       trans.WeightRevDiff(trans_weight_bar, PointMat_bar);
 
       // code to insert PointMat_bar into mesh_coords_bar;
-      for (int j = 0; j < mesh_ndof; ++j)
-      {
-         for (int k = 0; k < space_dim; ++k)
-         {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
-         }
-      }
+      addFaceNodesBar(*state.FESpace()->GetMesh(),
+                      element,
+                      PointMat_bar,
+                      mesh_coords_bar);
    }
 }
 
-- 
2.43.0


From 05efdd3bfb77a780ae2441051be0b7c65820b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 43/75] fix: mesh sensitivity of DG diffusion uses the
 quadrature rule of the residual

---
 src/physics/electromagnetics/electromag_integ.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index e9988ca..d86dc7b 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -746,7 +746,18 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    const mfem::IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * el.GetOrder();
+      int order = [&]()
+      {
+         if (el.Space() == FunctionSpace::Pk)
+         {
+            return 2 * el.GetOrder();
+         }
+         else
+         {
+            return 2 * el.GetOrder() + el.GetDim();
+         }
+      }();
+
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From d89b22f828a580b9f1e8c1727904055bacb3b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 44/75] fix: mesh sensitivity of the curl-curl term includes
 its scale and is finite at zero flux

---
 src/physics/electromagnetics/electromag_integ.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index d86dc7b..74d473f 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3541,7 +3541,7 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       const IntegrationPoint &ip = ir->IntPoint(i);
       isotrans.SetIntPoint(&ip);
 
-      const double w = ip.weight / trans.Weight();
+      const double w = integ.alpha * ip.weight / trans.Weight();
 
       if (dim == 3)
       {
@@ -3590,7 +3590,10 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       double b_vec_bar_buffer[3] = {};
       Vector b_vec_bar(b_vec_bar_buffer, dim);
       b_vec_bar = 0.0;
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (fabs(b_vec_norm) > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// const double curl_psi_dot_b = curl_psi * b_vec;
       double curl_psi_bar_buffer[3] = {};
@@ -3611,8 +3614,9 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       jac_bar = 0.0;
       AddMult(curlshape_dFt_bar, curlshape, jac_bar);
 
-      /// const double w = ip.weight / trans.Weight();
-      trans_weight_bar -= w_bar * ip.weight / pow(trans.Weight(), 2);
+      /// const double w = alpha * ip.weight / trans.Weight();
+      trans_weight_bar -=
+          w_bar * integ.alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From 38c1a608137775b2e00045bf8d7dd15226942da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 45/75] fix: sensitivities of curl-curl and force terms respect
 the term's attributes

---
 .../electromagnetics/electromag_integ.hpp     | 71 ++++++++++++++-----
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.hpp b/src/physics/electromagnetics/electromag_integ.hpp
index bdbfd5f..fa4c508 100644
--- a/src/physics/electromagnetics/electromag_integ.hpp
+++ b/src/physics/electromagnetics/electromag_integ.hpp
@@ -959,28 +959,55 @@ inline void addDomainSensitivityIntegrator(
    auto &state = fields.at("state");
    auto &state_fes = fields.at("state").space();
    rev_sens.emplace("state", &state_fes);
-   rev_sens.at("state").AddDomainIntegrator(
-       new CurlCurlNLFIntegratorStateRevSens(fields.at("state").gridFunc(),
-                                             fields.at(adjoint_name).gridFunc(),
-                                             primal_integ));
 
    fields.emplace(std::piecewise_construct,
                   std::forward_as_tuple("state_dot"),
                   std::forward_as_tuple(state.mesh(), state_fes));
 
    fwd_sens.emplace("state", &state_fes);
-   fwd_sens.at("state").AddDomainIntegrator(
-       new CurlCurlNLFIntegratorStateFwdSens(fields.at("state").gridFunc(),
-                                             fields.at("state_dot").gridFunc(),
-                                             primal_integ));
 
    auto &mesh_fes = fields.at("mesh_coords").space();
    rev_sens.emplace("mesh_coords", &mesh_fes);
-   rev_sens.at("mesh_coords")
-       .AddDomainIntegrator(new CurlCurlNLFIntegratorMeshRevSens(
-           fields.at("state").gridFunc(),
-           fields.at(adjoint_name).gridFunc(),
-           primal_integ));
+
+   if (attr_marker == nullptr)
+   {
+      rev_sens.at("state").AddDomainIntegrator(
+          new CurlCurlNLFIntegratorStateRevSens(
+              fields.at("state").gridFunc(),
+              fields.at(adjoint_name).gridFunc(),
+              primal_integ));
+      fwd_sens.at("state").AddDomainIntegrator(
+          new CurlCurlNLFIntegratorStateFwdSens(
+              fields.at("state").gridFunc(),
+              fields.at("state_dot").gridFunc(),
+              primal_integ));
+      rev_sens.at("mesh_coords")
+          .AddDomainIntegrator(new CurlCurlNLFIntegratorMeshRevSens(
+              fields.at("state").gridFunc(),
+              fields.at(adjoint_name).gridFunc(),
+              primal_integ));
+   }
+   else
+   {
+      rev_sens.at("state").AddDomainIntegrator(
+          new CurlCurlNLFIntegratorStateRevSens(
+              fields.at("state").gridFunc(),
+              fields.at(adjoint_name).gridFunc(),
+              primal_integ),
+          *attr_marker);
+      fwd_sens.at("state").AddDomainIntegrator(
+          new CurlCurlNLFIntegratorStateFwdSens(
+              fields.at("state").gridFunc(),
+              fields.at("state_dot").gridFunc(),
+              primal_integ),
+          *attr_marker);
+      rev_sens.at("mesh_coords")
+          .AddDomainIntegrator(new CurlCurlNLFIntegratorMeshRevSens(
+              fields.at("state").gridFunc(),
+              fields.at(adjoint_name).gridFunc(),
+              primal_integ),
+                               *attr_marker);
+   }
 }
 
 /// Integrator for (\nu(u) M, curl v) for Nedelec Elements
@@ -3207,9 +3234,21 @@ inline void addDomainSensitivityIntegrator(
 {
    auto &mesh_fes = fields.at("mesh_coords").space();
    output_sens.emplace("mesh_coords", &mesh_fes);
-   output_sens.at("mesh_coords")
-       .AddDomainIntegrator(new ForceIntegratorMeshSens(
-           fields.at(state_name).gridFunc(), primal_integ));
+
+   if (attr_marker == nullptr)
+   {
+      output_sens.at("mesh_coords")
+          .AddDomainIntegrator(new ForceIntegratorMeshSens(
+              fields.at(state_name).gridFunc(), primal_integ));
+   }
+   else
+   {
+      output_sens.at("mesh_coords")
+          .AddDomainIntegrator(
+              new ForceIntegratorMeshSens(fields.at(state_name).gridFunc(),
+                                          primal_integ),
+              *attr_marker);
+   }
 }
 
 /// Functional integrator to compute core losses based on the Steinmetz
-- 
2.43.0


From 743ac2bb08894b3554aa59e59deab708da45d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 46/75] fix: nonlinear form linearizes about the given inputs
 and keeps essential rows

---
 src/physics/miso_nonlinearform.cpp | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index ed6284f..5325066 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -92,14 +92,8 @@ void linearize(MISONonlinearForm &form, const MISOInputs &inputs)
 {
    std::cout << "In linearize!\n";
    setInputs(form, inputs);
-   if (form.jac.Ptr() == nullptr)
-   {
-      getJacobian(form, inputs, "state");
-   }
-   if (form.jac_trans == nullptr)
-   {
-      getJacobianTranspose(form, inputs, "state");
-   }
+   getJacobian(form, inputs, "state");
+   getJacobianTranspose(form, inputs, "state");
 }
 
 mfem::Operator &getJacobian(MISONonlinearForm &form,
@@ -224,10 +218,6 @@ void jacobianVectorProduct(MISONonlinearForm &form,
 {
    if (wrt == "state")
    {
-      form.scratch = wrt_dot;
-      const auto &ess_tdof_list = form.getEssentialDofs();
-      form.scratch.SetSubVector(ess_tdof_list, 0.0);
-
       auto *hypre_jac = form.jac.As<mfem::HypreParMatrix>();
       if (hypre_jac == nullptr)
       {
@@ -235,7 +225,8 @@ void jacobianVectorProduct(MISONonlinearForm &form,
              "getJacobianTranspose (MISONonlinearForm) only supports "
              "Jacobian matrices assembled to a HypreParMatrix!\n");
       }
-      hypre_jac->Mult(1.0, form.scratch, 1.0, res_dot);
+      /// identity on the essential rows, whose columns have been moved to jac_e
+      hypre_jac->Mult(1.0, wrt_dot, 1.0, res_dot);
 
       auto *hypre_jac_e = form.jac_e.As<mfem::HypreParMatrix>();
       if (hypre_jac_e == nullptr)
@@ -279,10 +270,6 @@ void vectorJacobianProduct(MISONonlinearForm &form,
 {
    if (wrt == "state")
    {
-      form.scratch = res_bar;
-      const auto &ess_tdof_list = form.getEssentialDofs();
-      form.scratch.SetSubVector(ess_tdof_list, 0.0);
-
       auto *hypre_jac = form.jac.As<mfem::HypreParMatrix>();
       if (hypre_jac == nullptr)
       {
@@ -290,11 +277,8 @@ void vectorJacobianProduct(MISONonlinearForm &form,
              "getJacobianTranspose (MISONonlinearForm) only supports "
              "Jacobian matrices assembled to a HypreParMatrix!\n");
       }
-      // hypre_jac->MultTranspose(1.0, res_bar, 1.0, wrt_bar);
-      hypre_jac->MultTranspose(1.0, form.scratch, 1.0, wrt_bar);
-      // form.scratch.SetSize(res_bar.Size());
-      // hypre_jac->MultTranspose(1.0, res_bar, 1.0, form.scratch);
-      // form.scratch.SetSubVector(ess_tdof_list, 0.0);
+      /// identity on the essential rows, whose columns have been moved to jac_e
+      hypre_jac->MultTranspose(1.0, res_bar, 1.0, wrt_bar);
 
       auto *hypre_jac_e = form.jac_e.As<mfem::HypreParMatrix>();
       if (hypre_jac_e == nullptr)
-- 
2.43.0


From c73cbf66faa84bc79310b8c665633d82376832d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 47/75] fix: adjoint of a nonlinear form with essential dofs

---
 src/physics/miso_nonlinearform.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 5325066..e199f5b 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -196,7 +196,9 @@ void finalizeAdjointSystem(MISONonlinearForm &form,
           "Jacobian matrices assembled to a HypreParMatrix!\n");
    }
 
-   hypre_jac_e->MultTranspose(1.0, adjoint, -1.0, adjoint);
+   /// account for the essential dofs' effect on the rest of the residual
+   form.scratch = adjoint;
+   hypre_jac_e->MultTranspose(-1.0, form.scratch, 1.0, adjoint);
 }
 
 double jacobianVectorProduct(MISONonlinearForm &form,
-- 
2.43.0


From f103599b4ce4da6e813c5ad1b7e927ba76cb9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 48/75] fix: scalar sensitivities of a nonlinear form skip the
 essential rows

---
 src/physics/miso_nonlinearform.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index e199f5b..12ef3a5 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -252,10 +252,14 @@ double vectorJacobianProduct(MISONonlinearForm &form,
 {
    if (form.rev_scalar_sens.count(wrt) != 0)
    {
+      /// the integrators do not contribute to the essential rows
+      form.scratch = res_bar;
+      form.scratch.SetSubVector(form.getEssentialDofs(), 0.0);
+
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
       /// func so we update it here
       auto &adjoint = form.nf_fields.at(form.adjoint_name);
-      adjoint.distributeSharedDofs(res_bar);
+      adjoint.distributeSharedDofs(form.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
-- 
2.43.0


From b1edd74c81f308bf43d4d9cffcc1555038825883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 49/75] fix: scalar sensitivities of a linear form skip the
 essential rows

---
 src/common/miso_linearform.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/miso_linearform.cpp b/src/common/miso_linearform.cpp
index 94921b9..8c47cea 100644
--- a/src/common/miso_linearform.cpp
+++ b/src/common/miso_linearform.cpp
@@ -95,7 +95,10 @@ double vectorJacobianProduct(MISOLinearForm &load,
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
       /// func so we update it here
       auto &adjoint = load.lf_fields->at(load.adjoint_name);
-      adjoint.distributeSharedDofs(load_bar);
+      /// the load is zero on the essential rows
+      load.scratch = load_bar;
+      load.scratch.SetSubVector(load.getEssentialDofs(), 0.0);
+      adjoint.distributeSharedDofs(load.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
-- 
2.43.0


From 109d50a05c5ae36731ec6b9e6e4c2d62fa00ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 50/75] fix: adjoint solve applies the residual's
 finalizeAdjointSystem

---
 src/common/abstract_solver.cpp        |  2 ++
 src/utils/mesh_warper/mesh_warper.cpp | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 2261f56..6fea781 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -170,6 +170,8 @@ void AbstractSolver2::solveForAdjoint(const MISOInputs &inputs,
 
       adj_solver->Mult(work, adjoint);
 
+      finalizeAdjointSystem(*spatial_res, *adj_solver, inputs, work, adjoint);
+
       /// log final state
       for (auto &pair : loggers)
       {
diff --git a/src/utils/mesh_warper/mesh_warper.cpp b/src/utils/mesh_warper/mesh_warper.cpp
index 18e6ebe..ab4ccef 100644
--- a/src/utils/mesh_warper/mesh_warper.cpp
+++ b/src/utils/mesh_warper/mesh_warper.cpp
@@ -43,6 +43,12 @@ public:
                                   mfem::Vector &state_bar,
                                   mfem::Vector &adjoint);
 
+   friend void finalizeAdjointSystem(MeshWarperResidual &residual,
+                                     mfem::Solver &adj_solver,
+                                     const miso::MISOInputs &inputs,
+                                     mfem::Vector &state_bar,
+                                     mfem::Vector &adjoint);
+
    friend double jacobianVectorProduct(MeshWarperResidual &residual,
                                        const mfem::Vector &wrt_dot,
                                        const std::string &wrt);
@@ -168,6 +174,15 @@ void setUpAdjointSystem(MeshWarperResidual &residual,
    setUpAdjointSystem(residual.res, adj_solver, inputs, state_bar, adjoint);
 }
 
+void finalizeAdjointSystem(MeshWarperResidual &residual,
+                           mfem::Solver &adj_solver,
+                           const miso::MISOInputs &inputs,
+                           mfem::Vector &state_bar,
+                           mfem::Vector &adjoint)
+{
+   finalizeAdjointSystem(residual.res, adj_solver, inputs, state_bar, adjoint);
+}
+
 double jacobianVectorProduct(MeshWarperResidual &residual,
                              const mfem::Vector &wrt_dot,
                              const std::string &wrt)
-- 
2.43.0


From 63c34950f7c57712a6f1f021c452972b78aada4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 51/75] fix: thermal residual copies its load and accumulates
 derivatives with respect to it

---
 src/physics/thermal/thermal_residual.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/physics/thermal/thermal_residual.cpp b/src/physics/thermal/thermal_residual.cpp
index c2a1ebc..049085b 100644
--- a/src/physics/thermal/thermal_residual.cpp
+++ b/src/physics/thermal/thermal_residual.cpp
@@ -23,7 +23,8 @@ void setInputs(ThermalResidual &residual, const miso::MISOInputs &inputs)
 
    setInputs(residual.res, inputs);
 
-   setVectorFromInputs(inputs, "thermal_load", residual.load);
+   /// copied, as the caller's vector is not ours to modify
+   setVectorFromInputs(inputs, "thermal_load", residual.load, true);
    if (residual.load.Size() != 0)
    {
       residual.load.SetSubVector(residual.res.getEssentialDofs(), 0.0);
@@ -105,8 +106,10 @@ void jacobianVectorProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      res_dot = 0.0;
-      res_dot.Add(-1.0, wrt_dot);
+      // except on the essential rows, where the load is not applied
+      mfem::Vector load_dot(wrt_dot);
+      load_dot.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      res_dot.Add(-1.0, load_dot);
       return;
    }
    // if wrt starts with prefix "temperature"
@@ -141,8 +144,10 @@ void vectorJacobianProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      wrt_bar = 0.0;
-      wrt_bar.Add(-1.0, res_bar);
+      // except on the essential rows, where the load is not applied
+      mfem::Vector load_bar(res_bar);
+      load_bar.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      wrt_bar.Add(-1.0, load_bar);
       return;
    }
    // if wrt starts with prefix "temperature"
-- 
2.43.0


From f0718753478d9c74bee6233b1acd35e624ca973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 52/75] fix: magnetic functionals are finite where the flux is
 zero

---
 .../electromagnetics/electromag_integ.cpp     | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 74d473f..a7cf4f6 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -4471,7 +4471,8 @@ void MagneticEnergyIntegrator::AssembleElementVector(
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
 
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans_weight;
 
       // const double energy = calcMagneticEnergy(trans, ip, nu, b_mag);
@@ -4600,7 +4601,8 @@ void MagneticEnergyIntegratorMeshSens::AssembleRHSElementVect(
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
 
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans_weight;
       const double energy = calcMagneticEnergy(trans, ip, nu, b_mag);
 
@@ -4692,7 +4694,8 @@ void MagneticEnergyIntegratorMeshSens::AssembleRHSElementVect(
 
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans.Weight();
       const double energy = calcMagneticEnergy(trans, ip, nu, b_mag);
       // fun += energy * w;
@@ -9795,7 +9798,8 @@ double ForceIntegrator3::GetElementEnergy(const FiniteElement &el,
 
       // b_vec = 0.0;
       curlshape_dFt.MultTranspose(elfun, b_vec);
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
@@ -9957,7 +9961,8 @@ void ForceIntegrator3::AssembleElementVector(const FiniteElement &el,
 
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
@@ -10295,7 +10300,8 @@ void ForceIntegratorMeshSens3::AssembleRHSElementVect(
 
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
@@ -10672,7 +10678,8 @@ double ForceIntegrator::GetElementEnergy(const FiniteElement &el,
 
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans_weight;
 
       /// the following computes `\partial (||B||/|J|) / \partial J`
@@ -10821,7 +10828,8 @@ void ForceIntegrator::AssembleElementVector(const mfem::FiniteElement &el,
 
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans.Weight();
 
       /// the following computes `\partial (||B||/|J|) / \partial J`
@@ -11061,7 +11069,8 @@ void ForceIntegratorMeshSens::AssembleRHSElementVect(
 
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
-      const double b_vec_norm = b_vec.Norml2();
+      /// bounded away from zero, as it is divided by
+      const double b_vec_norm = std::max(b_vec.Norml2(), 1e-30);
       const double b_mag = b_vec_norm / trans.Weight();
 
       /// the following computes `\partial (||B||/|J|) / \partial J`
-- 
2.43.0


From 72288fb368b64c97bb2173b8407df9614f545c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 53/75] fix: DG diffusion derivatives evaluate the material at
 the element's own point

---
 src/physics/electromagnetics/electromag_integ.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index a7cf4f6..dd41275 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -628,7 +628,7 @@ void NonlinearDGDiffusionIntegrator::AssembleFaceGrad(
 
       double model_val = model.Eval(*trans.Elem1, eip1, pointflux_norm);
       double model_deriv =
-          model.EvalStateDeriv(*trans.Elem1, ip, pointflux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, pointflux_norm);
       pointflux_norm_dot *= model_deriv;
 
       dshapedxt.Mult(nor, dshapedn);
@@ -869,7 +869,7 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// double model_val = model.Eval(trans, eip1, ip_flux_norm);
       const double model_val_dot =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux_norm);
       double ip_flux_norm_bar = model_val_bar * model_val_dot;
 
       /// const double ip_flux_norm = ip_flux.Norml2();
@@ -1175,12 +1175,12 @@ void DGInteriorFaceDiffusionIntegrator::AssembleFaceGrad(
 
       const double model_val1 = model.Eval(*trans.Elem1, eip1, ip_flux1_norm);
       double model_deriv1 =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux1_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux1_norm);
       ip_flux1_norm_dot *= model_deriv1;
 
       const double model_val2 = model.Eval(*trans.Elem2, eip2, ip_flux2_norm);
       double model_deriv2 =
-          model.EvalStateDeriv(*trans.Elem2, ip, ip_flux2_norm);
+          model.EvalStateDeriv(*trans.Elem2, eip2, ip_flux2_norm);
       ip_flux2_norm_dot *= model_deriv2;
 
       elmat11 = 0.0;
-- 
2.43.0


From aeaba3757fbb3640ecae6e4d7f638eae22191a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:22 +0000
Subject: [PATCH 54/75] fix: a functional evaluated without a state uses the
 one last set

---
 src/common/functional_output.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/functional_output.cpp b/src/common/functional_output.cpp
index 158e5dc..f326b70 100644
--- a/src/common/functional_output.cpp
+++ b/src/common/functional_output.cpp
@@ -58,6 +58,13 @@ double calcOutput(FunctionalOutput &output, const MISOInputs &inputs)
    if (state.Size() != output.output.ParFESpace()->GetTrueVSize())
    {
       output.scratch.SetSize(output.output.ParFESpace()->GetTrueVSize());
+      output.scratch = 0.0;
+      /// not given, so use the state that was set last
+      if (output.func_fields != nullptr &&
+          output.func_fields->count(output.state_name) != 0)
+      {
+         output.func_fields->at(output.state_name).setTrueVec(output.scratch);
+      }
       state.NewDataAndSize(output.scratch.GetData(),
                            output.output.ParFESpace()->GetTrueVSize());
    }
-- 
2.43.0


From fa32408b6b87d57eab1ff7d70b7b2c598ae1f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:22 +0000
Subject: [PATCH 55/75] fix: mesh sensitivity of a volume whose density is not
 set

---
 src/physics/mfem_common_integ.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 19135d7..0298689 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -225,19 +225,16 @@ void VolumeIntegratorMeshSens::AssembleRHSElementVect(
 
       double w_bar = 0.0;
       PointMat_bar = 0.0;
-      if (rho != nullptr)
+      if (rho != nullptr && *rho != nullptr)
       {
-         if (*rho != nullptr)
-         {
-            double s = (*rho)->Eval(trans, ip);
+         double s = (*rho)->Eval(trans, ip);
 
-            /// val = w * s;
-            double s_bar = val_bar * w;
-            w_bar += val_bar * s;
+         /// val = w * s;
+         double s_bar = val_bar * w;
+         w_bar += val_bar * s;
 
-            /// double s = rho->Eval(trans, ip);
-            (*rho)->EvalRevDiff(s_bar, trans, ip, PointMat_bar);
-         }
+         /// double s = rho->Eval(trans, ip);
+         (*rho)->EvalRevDiff(s_bar, trans, ip, PointMat_bar);
       }
       else
       {
-- 
2.43.0


From ade46fe237d422947ee187e58ee3d87af9927bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:38 +0000
Subject: [PATCH 56/75] fix: the point faces of a 1D SBP discretization have
 quadrature weight one

mfem's PointFiniteElement leaves the weight of its node at zero, so boundary
fluxes in one dimension contributed nothing.
---
 src/common/sbp_fe.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index c516610..4324eda 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -1165,6 +1165,16 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
    dshape *= 1.0 / H(ipIdx);
 }
 
+namespace
+{
+/// The face of a segment: a single node, whose quadrature weight is one
+class SBPPointElement : public PointFiniteElement
+{
+public:
+   SBPPointElement() { Nodes.IntPoint(0).weight = 1.0; }
+};
+}  // namespace
+
 SBPCollection::SBPCollection(const int p, const int dim)
  : FiniteElementCollection(p)
 {
@@ -1188,7 +1198,7 @@ SBPCollection::SBPCollection(const int p, const int dim)
    }
 
    SBPdof[Geometry::POINT] = 1;
-   SBPElements[Geometry::POINT] = new PointFiniteElement;
+   SBPElements[Geometry::POINT] = new SBPPointElement;
 
    if (dim >= 1)
    {
-- 
2.43.0


From c7301d4dad585ccfdb57d36f4be198d38d478179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:38 +0000
Subject: [PATCH 57/75] fix: normals at the point faces of 1D elements

CalcOrtho is not defined for the 1x0 Jacobian of a point.
---
 src/physics/fluidflow/inviscid_integ_def.hpp | 54 +++++++++++++++++---
 src/physics/fluidflow/viscous_integ_def.hpp  | 27 ++++++++--
 2 files changed, 72 insertions(+), 9 deletions(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index 54a7a80..11da4b4 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -461,7 +461,14 @@ double InviscidBoundaryIntegrator<Derived>::GetFaceEnergy(
 
       // get the normal vector, and then add contribution to function
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       fun += bndryFun(x, nrm, u_face) * face_ip.weight * alpha;
    }
    return fun;
@@ -520,7 +527,14 @@ void InviscidBoundaryIntegrator<Derived>::AssembleFaceVector(
 
       // get the normal vector and the flux on the face
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       flux(x, nrm, u_face, flux_face);
       flux_face *= face_ip.weight;
 
@@ -587,7 +601,14 @@ void InviscidBoundaryIntegrator<Derived>::AssembleFaceGrad(
 
       // get the normal vector and the flux Jacobian on the face
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       // flux(x, nrm, u_face, flux_face);
       fluxJacState(x, nrm, u_face, flux_jac_face);
 
@@ -663,7 +684,14 @@ double InviscidFaceIntegrator<Derived>::GetFaceEnergy(
 
       // get the contribution to the function on the face
       trans.Face->SetIntPoint(&ip_face);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * ip_left.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       nrm *= ip_face.weight;
       fun += iFaceFun(nrm, u_face_left, u_face_right);
    }
@@ -734,7 +762,14 @@ void InviscidFaceIntegrator<Derived>::AssembleFaceVector(
 
       // get the normal vector and the flux on the face
       trans.Face->SetIntPoint(&ip_face);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * ip_left.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       nrm *= ip_face.weight;
       flux(nrm, u_face_left, u_face_right, flux_face);
 
@@ -809,7 +844,14 @@ void InviscidFaceIntegrator<Derived>::AssembleFaceGrad(
 
       // get the normal vector and the flux Jacobians on the face
       trans.Face->SetIntPoint(&ip_face);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * ip_left.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       nrm *= alpha * ip_face.weight;
       // flux(nrm, u_face_left, u_face_right, flux_face);
       fluxJacStates(
diff --git a/src/physics/fluidflow/viscous_integ_def.hpp b/src/physics/fluidflow/viscous_integ_def.hpp
index b488822..5da2fcc 100644
--- a/src/physics/fluidflow/viscous_integ_def.hpp
+++ b/src/physics/fluidflow/viscous_integ_def.hpp
@@ -323,7 +323,14 @@ double ViscousBoundaryIntegrator<Derived>::GetFaceEnergy(
 
       // get the normal vector to the face, and then compute the contribution
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       fun += bndryFun(x, nrm, jac_i, u_face, Dwi) * face_ip.weight * alpha;
    }  // k/i loop
    return fun;
@@ -416,7 +423,14 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceVector(
 
       // get the normal vector to the face, and then compute the flux
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       flux(x, nrm, jac_i, u_face, Dwi, flux_face);
       flux_face *= face_ip.weight;
 
@@ -543,7 +557,14 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceGrad(
 
       // get the normal vector to the face, and then compute the flux
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       // flux(x, nrm, jac_i, u_face, Dwi, flux_face, flux_Dvi);
       fluxJacState(x, nrm, jac_i, u_face, Dwi, jac_term);
       jac_term *= face_ip.weight;
-- 
2.43.0


From 55c393e357f71640b38782b1305a48b8c6491f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 58/75] fix: boundary entropy takes the pressure of
 conservative variables

With entropy variables as states it evaluated the pressure formula on them.
---
 src/physics/fluidflow/euler_integ_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_integ_def.hpp b/src/physics/fluidflow/euler_integ_def.hpp
index 6a8f8f8..211ffc4 100644
--- a/src/physics/fluidflow/euler_integ_def.hpp
+++ b/src/physics/fluidflow/euler_integ_def.hpp
@@ -971,7 +971,9 @@ double BoundaryEntropy<dim, entvar>::calcBndryFun(const mfem::Vector &x,
 {
    // evaluate the entropy, then return the scaled value
    double S = entropy<double, dim, entvar>(q.GetData());
-   double press = pressure<double, dim>(q.GetData());
+   mfem::Vector qcons(q.Size());
+   calcConservativeVars<double, dim, entvar>(q.GetData(), qcons.GetData());
+   double press = pressure<double, dim>(qcons.GetData());
    S += euler::rho_ref*(press - euler::press_ref)/euler::press_ref;
    double scale = control_scale(len_scale, x_actuator, x);
    double dA = sqrt(dot<double, dim>(dir.GetData(), dir.GetData()));
-- 
2.43.0


From 5845921af44c86ab49dcd420817d5f17354c43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:49 +0000
Subject: [PATCH 59/75] fix: Q entries of SBP operators whose boundary matrix
 is not diagonal

The degree 0 operators on triangles and tetrahedra have off-diagonal boundary
matrices; without them the viscous terms differentiated a constant to nonzero.
---
 src/common/sbp_fe.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index 4324eda..1b82b8d 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -218,7 +218,14 @@ double SBPFiniteElement::getQEntry(int di,
    }
    else
    {
-      return 0.5 * getSkewEntry(di, i, j, adjJ_i, adjJ_j);
+      // the boundary matrix E = Q + Q^T is not diagonal for every operator
+      double Eij = 0.0;
+      for (int k = 0; k < GetDim(); ++k)
+      {
+         Eij += 0.5 * (adjJ_i(k, di) + adjJ_j(k, di)) *
+                (Q[k](j, i) + Q[k](i, j));
+      }
+      return 0.5 * (getSkewEntry(di, i, j, adjJ_i, adjJ_j) + Eij);
    }
 }
 
-- 
2.43.0


From e4a9c7eca97547bc4eecfb2f9462069195e2eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 60/75] fix: surface force on the point faces of 1D elements

---
 .../fluidflow/navier_stokes_integ_def.hpp      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/navier_stokes_integ_def.hpp b/src/physics/fluidflow/navier_stokes_integ_def.hpp
index 653eda2..6a0e858 100644
--- a/src/physics/fluidflow/navier_stokes_integ_def.hpp
+++ b/src/physics/fluidflow/navier_stokes_integ_def.hpp
@@ -1490,7 +1490,14 @@ double SurfaceForce<dim>::GetFaceEnergy(const mfem::FiniteElement &el_bnd,
 
       // get the normal vector to the face, and then compute the contribution
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       fun += calcBndryFun(x, nrm, jac_i, u_face, Dwi) * face_ip.weight * alpha;
    }  // k/i loop
    return fun;
@@ -1584,7 +1591,14 @@ void SurfaceForce<dim>::AssembleFaceVector(
 
       // get the normal vector to the face, and then compute the flux
       trans.Face->SetIntPoint(&face_ip);
-      CalcOrtho(trans.Face->Jacobian(), nrm);
+      if (dim == 1)
+      {
+         nrm(0) = 2.0 * el_ip.x - 1.0;
+      }
+      else
+      {
+         CalcOrtho(trans.Face->Jacobian(), nrm);
+      }
       calcBndryFunJacState(x, nrm, jac_i, u_face, Dwi, flux_face);
       flux_face *= face_ip.weight;
 
-- 
2.43.0


From d2af17714ea2fec8a6b69ac07a31ad2df462bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 61/75] fix: components with a single attribute get their
 material's coefficient

---
 src/physics/electromagnetics/cal2_ke_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/cal2_kh_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/demag_flux_coefficient.cpp    | 4 ++--
 src/physics/electromagnetics/pm_demag_constraint_coeff.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index a7d7070..75db13f 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index 029cf72..aba0ae7 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/demag_flux_coefficient.cpp b/src/physics/electromagnetics/demag_flux_coefficient.cpp
index 6e88fff..51edacd 100644
--- a/src/physics/electromagnetics/demag_flux_coefficient.cpp
+++ b/src/physics/electromagnetics/demag_flux_coefficient.cpp
@@ -228,7 +228,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
@@ -251,7 +251,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
index d5006d4..c75f328 100644
--- a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
+++ b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
@@ -467,7 +467,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
@@ -492,7 +492,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
-- 
2.43.0


From 4a1af1589d8f4e28f31cf959c6801e36de548e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 62/75] fix: CAL2 polynomial derivatives are finite at zero
 flux density

---
 .../electromagnetics/cal2_ke_coefficient.cpp     | 16 ++++++++--------
 .../electromagnetics/cal2_kh_coefficient.cpp     | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index 75db13f..b6adb48 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarEddyCurrentLossCoeff::EvalDerivS3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3(
 
    // double dke_T0_f_BdB_m = 0.0;
    double d2ke_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // dke_T0_f_BdB_m += i*ke_T0[i]*std::pow(B_m,i-1);
       d2ke_T0_f_BdB_m2 += (i - 1) * i * ke_T0[i] * std::pow(B_m, i - 2);
    }
    double dke_T1_f_BdB_m = 0.0;
    double d2ke_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // dke_T1_f_BdB_m += i*ke_T1[i]*std::pow(B_m,i-1);
       d2ke_T1_f_BdB_m2 += (i - 1) * i * ke_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS1S3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3S1(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index aba0ae7..242dfe1 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarHysteresisLossCoeff::EvalDerivS3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3(
 
    // double dkh_T0_f_BdB_m = 0.0;
    double d2kh_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // dkh_T0_f_BdB_m += i*kh_T0[i]*std::pow(B_m,i-1);
       d2kh_T0_f_BdB_m2 += (i - 1) * i * kh_T0[i] * std::pow(B_m, i - 2);
    }
    // double dkh_T1_f_BdB_m = 0.0;
    double d2kh_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // dkh_T1_f_BdB_m += i*kh_T1[i]*std::pow(B_m,i-1);
       d2kh_T1_f_BdB_m2 += (i - 1) * i * kh_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS1S3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3S1(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
-- 
2.43.0


From 622c4139b84b5fef2ee148d25c1c1b863113a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 63/75] fix: second derivative of the B-H curve reluctivity,
 and its derivative at zero flux

---
 .../reluctivity_coefficient.cpp               | 49 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/reluctivity_coefficient.cpp b/src/physics/electromagnetics/reluctivity_coefficient.cpp
index 5e9f908..ea7d305 100644
--- a/src/physics/electromagnetics/reluctivity_coefficient.cpp
+++ b/src/physics/electromagnetics/reluctivity_coefficient.cpp
@@ -99,6 +99,15 @@ public:
                          const mfem::IntegrationPoint &ip,
                          double state) override;
 
+   /// \brief Evaluate the second derivative of reluctivity with respsect to
+   /// magnetic flux in the element described by trans at the point ip.
+   /// \note When this method is called, the caller must make sure that the
+   /// IntegrationPoint associated with trans is the same as ip. This can be
+   /// achieved by calling trans.SetIntPoint(&ip).
+   double EvalState2ndDeriv(mfem::ElementTransformation &trans,
+                            const mfem::IntegrationPoint &ip,
+                            double state) override;
+
    void EvalRevDiff(const double Q_bar,
                     mfem::ElementTransformation &trans,
                     const mfem::IntegrationPoint &ip,
@@ -117,6 +126,8 @@ protected:
    std::unique_ptr<tinyspline::BSpline> bh;
    /// spline representing dH(B)/dB
    std::unique_ptr<tinyspline::BSpline> dbdh;
+   /// spline representing d2H(B)/dB2
+   std::unique_ptr<tinyspline::BSpline> d2bdh2;
 };
 
 class team13ReluctivityCoefficient : public miso::StateCoefficient
@@ -496,6 +507,7 @@ BHBSplineReluctivityCoefficient::BHBSplineReluctivityCoefficient(
    bh->setKnots(scaled_knots);
 
    dbdh = std::make_unique<tinyspline::BSpline>(bh->derive());
+   d2bdh2 = std::make_unique<tinyspline::BSpline>(dbdh->derive());
    // dnudb = nu.derive();
 }
 
@@ -531,8 +543,13 @@ double BHBSplineReluctivityCoefficient::EvalStateDeriv(
 {
    constexpr double nu0 = 1 / (4e-7 * M_PI);
 
-   /// TODO: handle state == 0
-   if (state <= b_max)
+   if (state <= 1e-14)
+   {
+      /// the limit of the derivative of H(B) / B as B tends to zero
+      double t = state / b_max;
+      return d2bdh2->eval(t).result()[0] / (2 * pow(b_max, 2));
+   }
+   else if (state <= b_max)
    {
       double t = state / b_max;
       double h = bh->eval(t).result()[0];
@@ -544,6 +561,34 @@ double BHBSplineReluctivityCoefficient::EvalStateDeriv(
    }
 }
 
+double BHBSplineReluctivityCoefficient::EvalState2ndDeriv(
+    mfem::ElementTransformation &trans,
+    const mfem::IntegrationPoint &ip,
+    const double state)
+{
+   constexpr double nu0 = 1 / (4e-7 * M_PI);
+
+   if (state <= 1e-14)
+   {
+      /// the limit of the second derivative of H(B) / B as B tends to zero
+      double t = state / b_max;
+      auto d3bdh3 = d2bdh2->derive();
+      return d3bdh3.eval(t).result()[0] / (3 * pow(b_max, 3));
+   }
+   else if (state <= b_max)
+   {
+      double t = state / b_max;
+      double h = bh->eval(t).result()[0];
+      double dh = dbdh->eval(t).result()[0] / b_max;
+      double d2h = d2bdh2->eval(t).result()[0] / pow(b_max, 2);
+      return d2h / state - 2 * dh / pow(state, 2) + 2 * h / pow(state, 3);
+   }
+   else
+   {
+      return 2 * (h_max - nu0 * b_max) / pow(state, 3);
+   }
+}
+
 // BHBSplineReluctivityCoefficient::~BHBSplineReluctivityCoefficient() =
 // default;
 
-- 
2.43.0


From 981a1428be48b192d8449039e245a1fb8ae5a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:54 +0000
Subject: [PATCH 64/75] fix: an open control loop stays open until it is closed

setInputs(ControlResidual) closed the loop whenever "closed-loop" was not
among the inputs, so the evaluation that follows setInputs was always
closed-loop.
---
 src/physics/fluidflow/flow_control_residual.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 5d8b8d4..23a5005 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -63,7 +63,7 @@ void setInputs(ControlResidual &residual, const MISOInputs &inputs)
    setValueFromInputs(inputs, "eta", residual.eta);
    setValueFromInputs(inputs, "beta", residual.beta);
    setValueFromInputs(inputs, "target-entropy", residual.target_entropy);
-   double closed_double = 1.0;
+   double closed_double = residual.closed_loop ? 1.0 : 0.0;
    setValueFromInputs(inputs, "closed-loop", closed_double);
    if (fabs(closed_double) < numeric_limits<double>::epsilon())
    {
-- 
2.43.0


From 9cab3effa9e8d123b2df65f2e9fb5f85e43a6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:05 +0000
Subject: [PATCH 65/75] fix: keep a copy of the actuator position

The control boundary conditions, the boundary entropy and the coupled
residual kept a reference to the caller's vector, which they read in every
later evaluation although it may be gone or hold something else.
---
 src/physics/fluidflow/euler_integ.hpp           | 4 ++--
 src/physics/fluidflow/flow_control_residual.cpp | 2 +-
 src/physics/fluidflow/navier_stokes_integ.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/euler_integ.hpp b/src/physics/fluidflow/euler_integ.hpp
index f28d4d0..9acb5ca 100644
--- a/src/physics/fluidflow/euler_integ.hpp
+++ b/src/physics/fluidflow/euler_integ.hpp
@@ -592,7 +592,7 @@ public:
    friend void setInputs(ControlBC &integ, const miso::MISOInputs &inputs)
    {
       setValueFromInputs(inputs, "control", integ.control);
-      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator);
+      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator, true);
    }
 
 private:
@@ -919,7 +919,7 @@ public:
    /// \param[in] inputs - holds the actuator position
    friend void setInputs(BoundaryEntropy &integ, const miso::MISOInputs &inputs)
    {
-      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator);
+      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator, true);
    }
 
 private:
diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 23a5005..1eba47f 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -351,7 +351,7 @@ void FlowControlResidual<dim, entvar>::setInputs_(const MISOInputs &inputs)
    }
    setInputs(control_res, control_inputs);
    setInputs(flow_res, flow_inputs);
-   setVectorFromInputs(inputs, "x-actuator", x_actuator);
+   setVectorFromInputs(inputs, "x-actuator", x_actuator, true);
 }
 
 template <int dim, bool entvar>
diff --git a/src/physics/fluidflow/navier_stokes_integ.hpp b/src/physics/fluidflow/navier_stokes_integ.hpp
index 5c0867a..a24cef7 100644
--- a/src/physics/fluidflow/navier_stokes_integ.hpp
+++ b/src/physics/fluidflow/navier_stokes_integ.hpp
@@ -1203,7 +1203,7 @@ public:
                          const miso::MISOInputs &inputs)
    {
       setValueFromInputs(inputs, "control", integ.control);
-      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator);
+      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator, true);
    }
 
 private:
-- 
2.43.0


From 57f018c48f0f9a10dee438a7883b0710689fe580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:05 +0000
Subject: [PATCH 66/75] fix: without an actuator position the flow control uses
 its default

An actuator that was never given was passed on as an empty vector, which
replaced the default position and was then read.
---
 src/physics/fluidflow/flow_control_residual.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 1eba47f..6124b2b 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -366,8 +366,11 @@ void FlowControlResidual<dim, entvar>::evaluate_(const MISOInputs &inputs,
    // double time = std::get<double>(inputs.at("time"));
 
    // get the coupling variables/outputs
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   if (x_actuator.Size() > 0)
+   {
+      flow_inputs.emplace("x-actuator", x_actuator);
+   }
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
@@ -409,8 +412,11 @@ double FlowControlResidual<dim, entvar>::calcEntropyChange_(
 
    // get the control velocity; for this we need the boundary entropy at the
    // new state, so compute that first
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   if (x_actuator.Size() > 0)
+   {
+      flow_inputs.emplace("x-actuator", x_actuator);
+   }
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
-- 
2.43.0


From 0e5c21d0ad9a0ffaafd1dadc8fbb62f0dc0a6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:12 +0000
Subject: [PATCH 67/75] fix: reverse mode of the curl magnitude is NaN where
 the curl is zero

---
 src/utils/l2_transfer_operator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/l2_transfer_operator.cpp b/src/utils/l2_transfer_operator.cpp
index f35f7a0..e00bd42 100644
--- a/src/utils/l2_transfer_operator.cpp
+++ b/src/utils/l2_transfer_operator.cpp
@@ -744,10 +744,11 @@ public:
          double curl_vec_norm_bar = curl_mag_bar / trans.Weight();
 
          /// const double curl_vec_norm = curl_vec.Norml2();
+         /// (not differentiable at zero, where it contributes nothing)
          double curl_vec_bar_buffer[3] = {};
          mfem::Vector curl_vec_bar(curl_vec_bar_buffer, space_dim);
          add(curl_vec_bar,
-             curl_vec_norm_bar / curl_vec_norm,
+             curl_vec_norm > 0.0 ? curl_vec_norm_bar / curl_vec_norm : 0.0,
              curl_vec,
              curl_vec_bar);
 
@@ -859,10 +860,11 @@ public:
          isotrans.WeightRevDiff(trans_weight_bar, PointMat_bar);
 
          /// const double curl_vec_norm = curl_vec.Norml2();
+         /// (not differentiable at zero, where it contributes nothing)
          double curl_vec_bar_buffer[3] = {};
          mfem::Vector curl_vec_bar(curl_vec_bar_buffer, space_dim);
          add(curl_vec_bar,
-             curl_vec_norm_bar / curl_vec_norm,
+             curl_vec_norm > 0.0 ? curl_vec_norm_bar / curl_vec_norm : 0.0,
              curl_vec,
              curl_vec_bar);
 
-- 
2.43.0


From 0e5b01631407b24331b8cced0c5682a165ba9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:49 +0000
Subject: [PATCH 68/75] fix: mesh warper's coordinates and state live in one
 space

---
 src/utils/mesh_warper/mesh_warper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/mesh_warper/mesh_warper.cpp b/src/utils/mesh_warper/mesh_warper.cpp
index ab4ccef..a65bab1 100644
--- a/src/utils/mesh_warper/mesh_warper.cpp
+++ b/src/utils/mesh_warper/mesh_warper.cpp
@@ -276,6 +276,9 @@ MeshWarper::MeshWarper(MPI_Comm incomm,
        mesh(), options["space-dis"], num_states, "residual");
    duals.emplace("residual", std::move(residual));
 
+   /// the state is the coordinates of the mesh, so both live in one space (the
+   /// mesh's own may have another ordering or degree)
+   mesh().SetNodalFESpace(&fes());
    auto &mesh_gf = *dynamic_cast<mfem::ParGridFunction *>(mesh().GetNodes());
    auto *mesh_fespace = mesh_gf.ParFESpace();
 
-- 
2.43.0


From 1e7a3cdff30aefedbb85cb9de504c2e6bd049306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:41 +0000
Subject: [PATCH 69/75] fix: mesh warper component's reverse products use the
 transposed derivative

---
 miso/mesh_warper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miso/mesh_warper.py b/miso/mesh_warper.py
index a64ac2b..297cc94 100644
--- a/miso/mesh_warper.py
+++ b/miso/mesh_warper.py
@@ -108,7 +108,7 @@ class MISOMeshWarper(om.ImplicitComponent):
                                                  "state",
                                                  d_outputs["vol_mesh_coords"])
                 if "surf_mesh_coords" in d_inputs:
-                    warper.jacobianVectorProduct(d_residuals["vol_mesh_coords"],
+                    warper.vectorJacobianProduct(d_residuals["vol_mesh_coords"],
                                                  "surf_mesh_coords",
                                                  d_inputs["surf_mesh_coords"])
 
-- 
2.43.0


From 952b33c91e487b1744880762323b92aab248c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:41 +0000
Subject: [PATCH 70/75] fix: state component's adjoint of a zero seed is zero

---
 miso/miso_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/miso/miso_state.py b/miso/miso_state.py
index 95bc269..5678757 100644
--- a/miso/miso_state.py
+++ b/miso/miso_state.py
@@ -302,5 +302,6 @@ class MISOState(om.ImplicitComponent):
                 # solver.solveForAdjoint(input_dict,
                 #                        state_bar,
                 #                        d_residuals["state"])
-            # else:
-            #     print("zero fun_bar!")
+            else:
+                # no seed has no adjoint, whatever was solved for before
+                d_residuals["state"][:] = 0.0
-- 
2.43.0


From 032131240df43f8596813a32547034096c0d2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:23 +0000
Subject: [PATCH 71/75] fix: stator current sources refer to the cached inputs,
 not constructor locals; restore only group densities

---
 .../electromagnetics/current_source_functions.cpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 596a771..368ab04 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -664,9 +664,9 @@ void CurrentDensityCoefficient::zeroCurrentDensity()
 
 void CurrentDensityCoefficient::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
@@ -729,9 +729,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          if (source == "cwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
@@ -764,9 +764,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          else if (source == "ccwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
-- 
2.43.0


From 61d4dd1f021bb82aae8878d874ca86f2b0c8022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:23 +0000
Subject: [PATCH 72/75] fix: size the zero value of a vector mesh-dependent
 coefficient on unmarked attributes

---
 src/common/coefficient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/coefficient.cpp b/src/common/coefficient.cpp
index 7fc5336..d7880a5 100644
--- a/src/common/coefficient.cpp
+++ b/src/common/coefficient.cpp
@@ -1817,6 +1817,7 @@ void VectorMeshDependentCoefficient::Eval(Vector &vec,
    }
    else  // if attribute not found and no default set, set the output to be zero
    {
+      vec.SetSize(vdim);
       vec = 0.0;
    }
 }
@@ -1876,6 +1877,7 @@ void VectorMeshDependentStateCoefficient::Eval(Vector &vec,
    }
    else  // if attribute not found and no default set, set the output to be zero
    {
+      vec.SetSize(vdim);
       vec = 0.0;
    }
 }
@@ -1917,6 +1919,7 @@ void VectorMeshDependentStateCoefficient::Eval(Vector &vec,
    }
    else  // if attribute not found and no default set, set the output to be zero
    {
+      vec.SetSize(vdim);
       vec = 0.0;
    }
 }
-- 
2.43.0


From 4d63a8f5f75038120282704bb1e6e4c8ffdbcc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:47 +0000
Subject: [PATCH 73/75] fix: derivative of the AC loss with respect to
 frequency has the fourth power of the strand radius

---
 src/physics/electromagnetics/electromag_outputs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 8266cd0..62ae9c4 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -749,7 +749,7 @@ double jacobianVectorProduct(ACLossFunctional &output,
       //                      pow(output.radius, 4) *
       //                      pow(2 * M_PI * output.freq, 2) / 8.0;
       double strand_loss_dot = 2 * sigma_b2 * output.stack_length * M_PI *
-                               pow(output.radius, 3) * output.freq *
+                               pow(output.radius, 4) * output.freq *
                                pow(2 * M_PI, 2) / 8.0 * wrt_dot(0);
 
       double num_strands =
-- 
2.43.0


From 05825deb0b2521f7bd78d6d27dc2a076b81947f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:21 +0000
Subject: [PATCH 74/75] fix: the ILU preconditioners that are asked for are
 returned

---
 src/physics/electromagnetics/magnetostatic_residual.cpp | 1 +
 src/physics/thermal/thermal_residual.hpp                | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 5817318..b1e36ef 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -42,6 +42,7 @@ std::unique_ptr<mfem::Solver> constructPreconditioner(
       HYPRE_ILUSetLevelOfFill(*ilu, prec_options["lev-fill"]);
       HYPRE_ILUSetLocalReordering(*ilu, prec_options["ilu-reorder"]);
       HYPRE_ILUSetPrintLevel(*ilu, prec_options["printlevel"]);
+      return ilu;
    }
    return nullptr;
 }
diff --git a/src/physics/thermal/thermal_residual.hpp b/src/physics/thermal/thermal_residual.hpp
index c248df3..7616b42 100644
--- a/src/physics/thermal/thermal_residual.hpp
+++ b/src/physics/thermal/thermal_residual.hpp
@@ -115,6 +115,7 @@ private:
          HYPRE_ILUSetLevelOfFill(*ilu, prec_options["lev-fill"]);
          HYPRE_ILUSetLocalReordering(*ilu, prec_options["ilu-reorder"]);
          HYPRE_ILUSetPrintLevel(*ilu, prec_options["printlevel"]);
+         return ilu;
       }
       return nullptr;
    }
-- 
2.43.0


From c7f58f7cd83d8fab030be5d67e2d139845f58d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:21 +0000
Subject: [PATCH 75/75] fix: derivative of the magnetostatic residual by a
 current density leaves the magnets out, and exists in 3D

---
 .../magnetostatic_residual.cpp                | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index b1e36ef..1bedd40 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -172,17 +172,22 @@ void jacobianVectorProduct(MagnetostaticResidual &residual,
                            const std::string &wrt,
                            mfem::Vector &res_dot)
 {
-   // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   // if wrt starts with prefix "current_density:" (in 3D the load handles it)
+   if (residual.current_coeff != nullptr &&
+       wrt.rfind("current_density:", 0) == 0)
    {
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
 
+      // sources other than the currents do not depend on the current density
+      residual.scratch.SetSize(res_dot.Size());
+      residual.scratch = 0.0;
+      addLoad(*residual.load, residual.scratch);
+      residual.scratch.Neg();
+
       MISOInputs inputs{{wrt, 1.0}};
       setInputs(*residual.current_coeff, inputs);
 
-      residual.scratch.SetSize(res_dot.Size());
-      residual.scratch = 0.0;
       addLoad(*residual.load, residual.scratch);
       residual.current_coeff->resetCurrentDensityFromCache();
 
@@ -198,17 +203,22 @@ double vectorJacobianProduct(MagnetostaticResidual &residual,
                              const mfem::Vector &res_bar,
                              const std::string &wrt)
 {
-   // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   // if wrt starts with prefix "current_density:" (in 3D the load handles it)
+   if (residual.current_coeff != nullptr &&
+       wrt.rfind("current_density:", 0) == 0)
    {
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
 
+      // sources other than the currents do not depend on the current density
+      residual.scratch.SetSize(res_bar.Size());
+      residual.scratch = 0.0;
+      addLoad(*residual.load, residual.scratch);
+      residual.scratch.Neg();
+
       MISOInputs inputs{{wrt, 1.0}};
       setInputs(*residual.current_coeff, inputs);
 
-      residual.scratch.SetSize(res_bar.Size());
-      residual.scratch = 0.0;
       addLoad(*residual.load, residual.scratch);
       residual.current_coeff->resetCurrentDensityFromCache();
 
-- 
2.43.0


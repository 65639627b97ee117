From 39af8d59b49210df475219ea1ba4eed72466d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:23 +0000
Subject: [PATCH 01/71] fix: vector - expression returned expression - vector

---
 src/placo/problem/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index ad96bb3..38f134b 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -190,7 +190,7 @@ Expression Expression::operator-(const Eigen::VectorXd v) const
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
 {
-  return e - v;
+  return (-e) + v;
 }
 
 Expression Expression::operator+(const double f) const
-- 
2.43.0


From f23e2acab818143ac43e131da1814a380f92d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:23 +0000
Subject: [PATCH 02/71] fix: Expression::mean() divided by the number of
 variables instead of the number of rows

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 38f134b..9e17eb9 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -253,8 +253,8 @@ Expression Expression::sum()
 Expression Expression::mean()
 {
   Expression e = sum();
-  e.A /= (double)cols();
-  e.b /= (double)cols();
+  e.A /= (double)rows();
+  e.b /= (double)rows();
 
   return e;
 }
-- 
2.43.0


From 379834cd09c18e68eb7b10b30f949b492d3d2c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:23 +0000
Subject: [PATCH 03/71] fix: expression - scalar read past a 1-row vector for
 multi-row expressions

---
 src/placo/problem/expression.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 9e17eb9..1ce6d13 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -208,10 +208,7 @@ Expression operator+(double f, const Expression& e)
 
 Expression Expression::operator-(const double f) const
 {
-  Eigen::VectorXd fv(1);
-  fv(0, 0) = f;
-
-  return (*this) - fv;
+  return (*this) + (-f);
 }
 
 Expression operator-(double f, const Expression& e)
-- 
2.43.0


From 9f556b0b341a2635c4cf2490d700ec2389fe1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:23 +0000
Subject: [PATCH 04/71] fix: out of range slices and mis-sized operands of
 expressions accessed memory out of bounds

---
 src/placo/problem/expression.cpp | 27 +++++++++++++++++++++++++++
 src/placo/problem/variable.cpp   |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 1ce6d13..4601f07 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -6,6 +6,17 @@
 
 namespace placo::problem
 {
+static void check_rows(int operand_rows, int expression_rows)
+{
+  if (operand_rows != expression_rows)
+  {
+    std::ostringstream oss;
+    oss << "Operand size (" << operand_rows << ") doesn't match the # of rows of the expression (" << expression_rows
+        << ")";
+    throw std::runtime_error(oss.str());
+  }
+}
+
 Expression::Expression()
 {
 }
@@ -56,6 +67,11 @@ Expression Expression::slice(int start, int rows) const
     rows = this->rows() - start;
   }
 
+  if (start < 0 || rows < 0 || start + rows > this->rows())
+  {
+    throw std::runtime_error("Expression::slice: rows out of range");
+  }
+
   e.A = A.block(start, 0, rows, cols());
   e.b = b.block(start, 0, rows, 1);
 
@@ -169,6 +185,8 @@ Expression Expression::operator*(const Expression& other) const
 
 Expression Expression::operator+(const Eigen::VectorXd v) const
 {
+  check_rows(v.rows(), rows());
+
   Expression e(*this);
   e.b += v;
 
@@ -182,6 +200,8 @@ Expression operator+(const Eigen::VectorXd v, const Expression& e)
 
 Expression Expression::operator-(const Eigen::VectorXd v) const
 {
+  check_rows(v.rows(), rows());
+
   Expression e(*this);
   e.b -= v;
 
@@ -218,6 +238,8 @@ Expression operator-(double f, const Expression& e)
 
 Expression operator*(const Eigen::MatrixXd M, const Expression& e_)
 {
+  check_rows(M.cols(), e_.rows());
+
   Expression e(e_);
   e.A = M.operator*(e.A);
   e.b = M.operator*(e.b);
@@ -296,6 +318,11 @@ ProblemConstraint Expression::operator<=(const Expression& other) const
 
 Eigen::VectorXd Expression::value(Eigen::VectorXd x) const
 {
+  if (x.rows() < A.cols())
+  {
+    throw std::runtime_error("Expression::value: x has less values than the expression has variables");
+  }
+
   return A * x.block(0, 0, A.cols(), 1) + b;
 }
 
diff --git a/src/placo/problem/variable.cpp b/src/placo/problem/variable.cpp
index 7f86dfe..5581065 100644
--- a/src/placo/problem/variable.cpp
+++ b/src/placo/problem/variable.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include "placo/problem/variable.h"
 
 namespace placo::problem
@@ -13,6 +14,11 @@ Expression Variable::expr(int start, int rows)
     rows = size() - start;
   }
 
+  if (start < 0 || rows < 0 || start + rows > size())
+  {
+    throw std::runtime_error("Variable::expr: rows out of range");
+  }
+
   Expression e;
   e.A = Eigen::MatrixXd(rows, k_end);
   e.A.setZero();
-- 
2.43.0


From 368dfbad5a89373697c78f3f997c14791c9d3d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 05/71] fix: constraint sizes were checked after hard
 equalities were copied, writing out of bounds

---
 src/placo/problem/problem.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ff53c15..ba0ec1d 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -118,6 +118,19 @@ void Problem::solve()
 
   for (auto constraint : constraints)
   {
+    if (constraint->expression.cols() > n_variables)
+    {
+      throw QPError("Problem: Inconsistent problem size");
+    }
+    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
+    {
+      throw QPError("Problem: A or b is empty");
+    }
+    if (constraint->expression.A.rows() != constraint->expression.b.rows())
+    {
+      throw QPError("Problem: A.rows() != b.rows()");
+    }
+
     if (constraint->type == ProblemConstraint::Inequality)
     {
       constraint->is_active = false;
@@ -197,19 +210,6 @@ void Problem::solve()
   // Scanning the constraints (counting inequalities and equalities, building objectif function)
   for (auto constraint : constraints)
   {
-    if (constraint->expression.cols() > n_variables)
-    {
-      throw QPError("Problem: Inconsistent problem size");
-    }
-    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
-    {
-      throw QPError("Problem: A or b is empty");
-    }
-    if (constraint->expression.A.rows() != constraint->expression.b.rows())
-    {
-      throw QPError("Problem: A.rows() != b.rows()");
-    }
-
     if (constraint->type == ProblemConstraint::Inequality)
     {
       // If the constraint is hard, this will be the true inequality, else, this will be the inequality
-- 
2.43.0


From 33a0bd8da7660cf8cd1dd0a6d1daf21e9a0c7ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 06/71] fix: with use_sparsity, cross terms between separate
 column intervals were dropped from the Hessian

---
 src/placo/problem/problem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ba0ec1d..f606e0b 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -235,8 +235,13 @@ void Problem::solve()
 
           Eigen::MatrixXd block = expression_A.block(0, interval.start, constraints, size);
 
-          P.block(interval.start, interval.start, size, size).noalias() +=
-              constraint->weight * block.transpose() * block;
+          for (auto other : sparsity.intervals)
+          {
+            int other_size = 1 + other.end - other.start;
+
+            P.block(interval.start, other.start, size, other_size).noalias() +=
+                constraint->weight * block.transpose() * expression_A.block(0, other.start, constraints, other_size);
+          }
         }
 
         q.block(0, 0, expression_A.cols(), 1).noalias() +=
-- 
2.43.0


From 995b693ae381c54e13c4c43e3c1bd33b887f9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:48 +0000
Subject: [PATCH 07/71] fix: without rewrite_equalities, the equality matrix
 lacked the slack variables columns (out of bounds read)

---
 src/placo/problem/problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index f606e0b..acc6b63 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -196,6 +196,12 @@ void Problem::solve()
     A.resize(0, 0);
     b.resize(0);
   }
+  else
+  {
+    // The slack variables are not involved in the equality constraints
+    A.conservativeResize(A.rows(), n_variables + slack_variables);
+    A.rightCols(slack_variables).setZero();
+  }
 
   Eigen::MatrixXd P(free_variables + slack_variables, free_variables + slack_variables);
   Eigen::VectorXd q(free_variables + slack_variables);
-- 
2.43.0


From dd0385128d330cc130e26e5f4e42c8d11c218ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:26 +0000
Subject: [PATCH 08/71] fix: without rewrite_equalities, more equalities than
 variables corrupted the memory of the QP solver

---
 src/placo/problem/problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index acc6b63..8b99238 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -198,6 +198,11 @@ void Problem::solve()
   }
   else
   {
+    if (A.rows() > n_variables)
+    {
+      throw QPError("Problem: there are more equality constraints than variables");
+    }
+
     // The slack variables are not involved in the equality constraints
     A.conservativeResize(A.rows(), n_variables + slack_variables);
     A.rightCols(slack_variables).setZero();
-- 
2.43.0


From fdb76414a4b8ed4ae85cfecf65873037fffb94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:57 +0000
Subject: [PATCH 09/71] fix: Integrator::Trajectory::duration() counted one
 timestep too many

---
 src/placo/problem/integrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 809ddf9..bcc7454 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -40,7 +40,7 @@ double Integrator::Trajectory::value(double t, int diff)
 
 double Integrator::Trajectory::duration()
 {
-  return keyframes.size() * dt;
+  return variable_value.size() * dt;
 }
 
 Integrator::Integrator()
-- 
2.43.0


From b4efeaf8415b1e66dd9bce4a5bcad3edd9a1b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:57 +0000
Subject: [PATCH 10/71] fix: Integrator::expr_t and the system matrix
 constructor accepted out of range derivatives / initial states

---
 src/placo/problem/integrator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index bcc7454..aa2499a 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -52,6 +52,11 @@ Integrator::Integrator(Variable& variable_, Expression X0, Eigen::MatrixXd syste
 {
   order = system_matrix.rows() - 1;
 
+  if (X0.rows() != order)
+  {
+    throw std::runtime_error("Integrator: X0 should have " + std::to_string(order) + " rows (same as order)");
+  }
+
   N = variable->size();
 
   auto AB = AB_matrices(M, order, dt);
@@ -77,10 +82,6 @@ Integrator::Integrator(Variable& variable_, Expression X0, Eigen::MatrixXd syste
 Integrator::Integrator(Variable& variable_, Expression X0, int order, double dt)
   : Integrator(variable_, X0, upper_shift_matrix(order), dt)
 {
-  if (X0.rows() != order)
-  {
-    throw std::runtime_error("Integrator: X0 should have " + std::to_string(order) + " rows (same as order)");
-  }
 }
 
 Integrator::~Integrator()
@@ -169,6 +170,8 @@ Expression Integrator::expr(int step, int diff)
 
 Expression Integrator::expr_t(double t, int diff)
 {
+  check_diff(order, diff, true);
+
   t -= t_start;
 
   int step = std::max<int>(std::min<int>(variable->size() - 1, t / dt), 0);
-- 
2.43.0


From f9c6a777e8a305ce5755a73fb8d326565f1f0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:57 +0000
Subject: [PATCH 11/71] fix: Integrator ignored a t_start set after the
 trajectory was first computed

---
 src/placo/problem/integrator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index aa2499a..146c636 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -227,7 +227,6 @@ void Integrator::update_trajectory()
     trajectory.M = M;
     trajectory.dt = dt;
     trajectory.order = order;
-    trajectory.t_start = t_start;
     trajectory.variable_value = variable->value;
 
     // Updating keyframes
@@ -242,6 +241,8 @@ void Integrator::update_trajectory()
 
     version = variable->version;
   }
+
+  trajectory.t_start = t_start;
 }
 
 }  // namespace placo::problem
\ No newline at end of file
-- 
2.43.0


From 370ad1043840a5bc5e96cb380fefac83d60f6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:57 +0000
Subject: [PATCH 12/71] fix: LIPM::Trajectory::dzmp had the wrong sign on the
 jerk

---
 src/placo/humanoid/lipm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/lipm.cpp b/src/placo/humanoid/lipm.cpp
index 3e9ca1b..1e95559 100644
--- a/src/placo/humanoid/lipm.cpp
+++ b/src/placo/humanoid/lipm.cpp
@@ -37,7 +37,7 @@ Eigen::VectorXd LIPM::Trajectory::zmp(double t, double omega_2)
 
 Eigen::VectorXd LIPM::Trajectory::dzmp(double t, double omega_2)
 {
-  return vel(t) + (1 / omega_2) * jerk(t);
+  return vel(t) - (1 / omega_2) * jerk(t);
 }
 
 LIPM::LIPM()
-- 
2.43.0


From 77f736d301b32285047c5777419b946d3f1a425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:55 +0000
Subject: [PATCH 13/71] fix: CubicSpline::duration() read the splines before
 they were (re)computed

---
 src/placo/tools/cubic_spline.cpp | 375 ++++++++++++++++---------------
 1 file changed, 190 insertions(+), 185 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e7aa5d7..cf30174 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,185 +1,190 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  return _splines[_splines.size() - 1].t_end - _splines[0].t_start;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 77e756d356dce3a4c96ac3d97b83f0f1f9ba69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:55 +0000
Subject: [PATCH 14/71] fix: acceleration of a single point spline returned its
 velocity

---
 src/placo/tools/cubic_spline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index cf30174..65c2e42 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -68,10 +68,14 @@ double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
     {
       return _points.front().x;
     }
-    else
+    else if (type == Speed)
     {
       return _points.front().dx;
     }
+    else
+    {
+      return 0.0;
+    }
   }
   else
   {
-- 
2.43.0


From bae66377087c96f8b4c205b6cce9ced3524c2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:55 +0000
Subject: [PATCH 15/71] fix: setting Segment.end from Python modified the start
 of the segment

---
 bindings/expose-tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 6ff38ad..47d9295 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -88,7 +88,7 @@ void exposeTools()
 
   class__<Segment>("Segment", init<Eigen::Vector2d, Eigen::Vector2d>())
       .add_property("start", &Segment::start, &Segment::start)
-      .add_property("end", &Segment::end, &Segment::start)
+      .add_property("end", &Segment::end, &Segment::end)
       .def("norm", &Segment::norm)
       .def("is_parallel", &Segment::is_parallel)
       .def("is_point_aligned", &Segment::is_point_aligned)
-- 
2.43.0


From cf02f96b42d5503746e308e3e4bc2dd5ed2d319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:57 +0000
Subject: [PATCH 16/71] fix: LIPM.x_var and LIPM.y_var could not be read from
 Python

---
 bindings/expose-walk-pattern-generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 705461b..2e491fd 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -177,8 +177,8 @@ void exposeWalkPatternGenerator()
       .add_property("timesteps", &LIPM::timesteps, &LIPM::timesteps)
       .add_property("t_start", &LIPM::t_start, &LIPM::t_start)
       .add_property("t_end", &LIPM::t_end, &LIPM::t_end)
-      .add_property("x_var", &LIPM::x_var, &LIPM::x_var)
-      .add_property("y_var", &LIPM::y_var, &LIPM::y_var)
+      .add_property("x_var", make_getter(&LIPM::x_var, return_value_policy<reference_existing_object>()))
+      .add_property("y_var", make_getter(&LIPM::y_var, return_value_policy<reference_existing_object>()))
       .add_property("x", &LIPM::x, &LIPM::x)
       .add_property("y", &LIPM::y, &LIPM::y);
 
-- 
2.43.0


From 7b58282d228d603582b77bde644d633128413b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:50 +0000
Subject: [PATCH 17/71] fix: unknown joint and frame names read out of bounds
 instead of being reported

---
 bindings/expose-robot-wrapper.cpp |  2 +-
 src/placo/model/robot_wrapper.cpp | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index 25b9ba0..a4711d9 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -56,7 +56,7 @@ void exposeRobotType(class_<RobotType, W1>& type)
       .def(
           "get_frame_hessian",
           +[](RobotType& robot, const std::string frame, const std::string joint) {
-            return robot.get_frame_hessian(robot.model.getFrameId(frame), robot.get_joint_v_offset(joint));
+            return robot.get_frame_hessian(robot.get_frame_index(frame), robot.get_joint_v_offset(joint));
           })
       .def("get_T_world_fbase", &RobotType::get_T_world_fbase)
       .def("set_T_world_fbase", &RobotType::set_T_world_fbase)
diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 152501c..c06b222 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -193,7 +193,7 @@ double RobotWrapper::get_joint(const std::string& name)
   return state.q[get_joint_offset(name)];
 }
 
-int RobotWrapper::get_joint_offset(const std::string& name)
+static pinocchio::JointIndex get_joint_index(const pinocchio::Model& model, const std::string& name)
 {
   if (!model.existJointName(name))
   {
@@ -202,25 +202,30 @@ int RobotWrapper::get_joint_offset(const std::string& name)
     throw std::runtime_error(oss.str());
   }
 
-  auto index = model.getJointId(name);
+  return model.getJointId(name);
+}
+
+int RobotWrapper::get_joint_offset(const std::string& name)
+{
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_q();
 }
 
 int RobotWrapper::get_joint_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nq();
 }
 
 int RobotWrapper::get_joint_v_offset(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_v();
 }
 
 int RobotWrapper::get_joint_v_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nv();
 }
 
@@ -585,7 +590,7 @@ Eigen::MatrixXd RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameInde
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From c4cb0b5697e73eb3febac5e7d04f2d1fdb53f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:50 +0000
Subject: [PATCH 18/71] fix: joint_jacobian_time_variation by name returned the
 joint jacobian

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index c06b222..8df11f5 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -604,7 +604,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From fffb55e575ca94f97c1b8ee827e25a7c3374545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:50 +0000
Subject: [PATCH 19/71] fix: torques_from_acceleration_with_fixed_frame ignored
 the acceleration of the floating base

---
 src/placo/model/robot_wrapper.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 8df11f5..c7e7223 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -741,15 +741,28 @@ Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::
   auto h = non_linear_effects();
   auto M = mass_matrix();
 
-  // Compute f the forces fixing the frame
+  if (qdd_a.rows() != model.nv - 6)
+  {
+    std::ostringstream oss;
+    oss << "Expected " << (model.nv - 6) << " actuated accelerations, got " << qdd_a.rows();
+    throw std::runtime_error(oss.str());
+  }
+
   Eigen::MatrixXd J = frame_jacobian(frameIndex);
-  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * h.block(0, 0, 6, 1);
+  Eigen::MatrixXd dJ = frame_jacobian_time_variation(frameIndex);
+  Eigen::MatrixXd Ju = J.leftCols(6);
 
-  auto h_a = h.bottomRows(model.nv - 6);
-  auto M_a = M.bottomRightCorner(model.nv - 6, model.nv - 6);
+  // Since the frame is fixed (J qdd + dJ qd = 0), moving the actuated DOFs accelerates the floating base
+  Eigen::VectorXd qdd(model.nv);
+  qdd.bottomRows(model.nv - 6) = qdd_a;
+  qdd.topRows(6) = -Ju.inverse() * (J.rightCols(model.nv - 6) * qdd_a + dJ * state.qd);
+
+  // Compute f the forces fixing the frame
+  Eigen::VectorXd tau = M * qdd + h;
+  Eigen::VectorXd f = Ju.transpose().inverse() * tau.topRows(6);
 
   // Compute the torques
-  return M_a * qdd_a + h_a - (J.transpose() * f).bottomRows(model.nv - 6);
+  return (tau - J.transpose() * f).bottomRows(model.nv - 6);
 }
 
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a, std::string frame)
-- 
2.43.0


From 245256aea6a42691c92d3eb6d176430fd1dc0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:57 +0000
Subject: [PATCH 20/71] fix: joint_names() listed the floating base of MJCF
 models as an actuated joint

---
 src/placo/model/robot_wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index c7e7223..689f5c7 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -775,8 +775,8 @@ std::vector<std::string> RobotWrapper::joint_names(bool include_floating_base)
   std::vector<std::string> joints = model.names;
   if (!include_floating_base)
   {
-    joints.erase(std::remove(joints.begin(), joints.end(), "universe"), joints.end());
-    joints.erase(std::remove(joints.begin(), joints.end(), "root_joint"), joints.end());
+    // The first joints are the universe and the floating base (which is not named root_joint in MJCF models)
+    joints.erase(joints.begin(), joints.begin() + 2);
   }
   return joints;
 }
-- 
2.43.0


From 6cad6326a937482815c17283d5ae090b59dbe11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:44 +0000
Subject: [PATCH 21/71] fix: AxisAlignTask produced NaNs when the axes were
 exactly aligned

---
 src/placo/kinematics/axis_align_task.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index 561f28e..b9d16d9 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -20,7 +20,13 @@ void AxisAlignTask::update()
   // the rotation about z to be the error, and about y to be zero.
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
-  R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
+  Eigen::Vector3d rotation_axis = R_world_axisframe.col(0).cross(targetAxis_world_normalized);
+  if (rotation_axis.norm() < 1e-12)
+  {
+    // Axes are already aligned (or opposed), any orthogonal axis can be used
+    rotation_axis = R_world_axisframe.col(0).unitOrthogonal();
+  }
+  R_world_axisframe.col(2) = rotation_axis.normalized();
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From ebdf102f345111e7f67de0b9b9a7f441634a3465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:44 +0000
Subject: [PATCH 22/71] fix: YawConstraint underestimated the yaw motion of
 tilted frames

---
 src/placo/kinematics/yaw_constraint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/yaw_constraint.cpp b/src/placo/kinematics/yaw_constraint.cpp
index f4d84fd..5fb473d 100644
--- a/src/placo/kinematics/yaw_constraint.cpp
+++ b/src/placo/kinematics/yaw_constraint.cpp
@@ -30,7 +30,9 @@ void YawConstraint::add_constraint(placo::problem::Problem& problem)
   Eigen::Vector3d perp_axis = Eigen::Vector3d::UnitZ().cross(x_axis).normalized();
   Eigen::Vector3d yaw_axis = x_axis.cross(perp_axis).normalized();
 
-  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative;
+  // When b is tilted, the angle of the projection of its x axis changes faster than the rotation about the yaw axis
+  double projection_norm = fmax(1e-6, x_axis.head<2>().norm());
+  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative / projection_norm;
 
   // Expression for the angle
   problem::Expression e;
-- 
2.43.0


From 726bd559046be968a57d66f6e038cc574f58c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:35 +0000
Subject: [PATCH 23/71] fix: KineticEnergyRegularizationTask could not be used
 as a task from Python (wrong base class)

---
 bindings/expose-kinematics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index a348cf4..2d7a020 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -235,7 +235,7 @@ void exposeKinematics()
       .def_readwrite("minimize", &ManipulabilityTask::minimize)
       .def_readonly("manipulability", &ManipulabilityTask::manipulability);
 
-  class__<KineticEnergyRegularizationTask, bases<RegularizationTask>>("KineticEnergyRegularizationTask");
+  class__<KineticEnergyRegularizationTask, bases<Task>>("KineticEnergyRegularizationTask");
 
   class__<Constraint, bases<tools::Prioritized>, boost::noncopyable>("KinematicsConstraint", no_init);
 
-- 
2.43.0


From f5c83f830ed8640ad8f95751efa3d0ddfe295ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:11 +0000
Subject: [PATCH 24/71] fix: inequalities contradicting hard equalities were
 satisfied through rounding errors (steps of 1e15)

---
 src/placo/problem/problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 8b99238..321f8d0 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -101,6 +101,11 @@ void Problem::get_constraint_expressions(ProblemConstraint* constraint, Eigen::M
     QR.matrixQ().applyThisOnTheRight(full_A);
 
     A = full_A.rightCols(free_variables);
+
+    // When the equalities determine (part of) the expression, remaining coefficients can be rounding errors, which
+    // should not be used to satisfy the constraint
+    double threshold = 1e-12 * full_A.cwiseAbs().maxCoeff();
+    A = (A.array().abs() < threshold).select(0., A);
     b = constraint->expression.b + full_A.leftCols(determined_variables) * y;
   }
   else
-- 
2.43.0


From 96a26cc61a5449740e5d51eade5f216d0adadf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:33 +0000
Subject: [PATCH 25/71] fix: dynamics RelativePositionTask had wrong velocity
 dependent terms (angular rows of dJ, doubled centripetal term)

---
 src/placo/dynamics/relative_position_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/relative_position_task.cpp b/src/placo/dynamics/relative_position_task.cpp
index 9b35bfc..79e2abc 100644
--- a/src/placo/dynamics/relative_position_task.cpp
+++ b/src/placo/dynamics/relative_position_task.cpp
@@ -50,8 +50,8 @@ void RelativePositionTask::update()
   J += a_R_w * (Jb.block(0, 0, 3, solver->N) - Ja.block(0, 0, 3, solver->N));
 
   Eigen::Vector3d e = 2 * pinocchio::skew(a_omega_w) * a_R_w * w_dAB;
-  e += 2 * pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
-  e += a_R_w * (dJb.block(3, 0, 3, solver->N) - dJa.block(3, 0, 3, solver->N)) * solver->robot.state.qd;
+  e += pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
+  e += a_R_w * (dJb.block(0, 0, 3, solver->N) - dJa.block(0, 0, 3, solver->N)) * solver->robot.state.qd;
   e += pinocchio::skew(a_AB) * a_R_w * dJa.block(3, 0, 3, solver->N) * solver->robot.state.qd;
 
   A = mask.apply(J);
-- 
2.43.0


From 0247358da2fe78fee6d6ac668b939b249902ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:33 +0000
Subject: [PATCH 26/71] fix: TorqueTask stiffness had the wrong sign (spring
 pushing away)

---
 src/placo/dynamics/torque_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/dynamics/torque_task.cpp b/src/placo/dynamics/torque_task.cpp
index 4c7612a..e452acb 100644
--- a/src/placo/dynamics/torque_task.cpp
+++ b/src/placo/dynamics/torque_task.cpp
@@ -36,7 +36,7 @@ void TorqueTask::update()
   {
     TargetTau target = entry.second;
     A(k, solver->robot.get_joint_v_offset(entry.first)) = 1;
-    b(k, 0) = target.torque + target.kp * solver->robot.get_joint(entry.first) -
+    b(k, 0) = target.torque - target.kp * solver->robot.get_joint(entry.first) -
               target.kd * solver->robot.get_joint_velocity(entry.first);
     k++;
   }
-- 
2.43.0


From d5ab279186632574c1b5347c433c3a27f729aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:33 +0000
Subject: [PATCH 27/71] fix: dynamics GearTask::set_gear removed the gears of
 all the other joints

---
 src/placo/dynamics/gear_task.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index d5af82b..b0aac01 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,7 +9,9 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
-  gears.clear();
+  int target_id = solver->robot.get_joint_v_offset(target);
+  gears[target_id].clear();
+
   add_gear(target, source, ratio);
 }
 
-- 
2.43.0


From 66179505ead1bdf9d67a2f4abde0717fac48740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:33 +0000
Subject: [PATCH 28/71] fix: DynamicsSolver::remove_task deleted tasks which
 are not owned by the solver

---
 src/placo/dynamics/dynamics_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index e112249..1edcd73 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -566,7 +566,10 @@ void DynamicsSolver::remove_task(Task& task)
 {
   tasks.erase(&task);
 
-  delete &task;
+  if (task.solver_memory)
+  {
+    delete &task;
+  }
 }
 
 void DynamicsSolver::remove_task(FrameTask& task)
-- 
2.43.0


From eae293c225482cd31212e7b68fef7e5b1a7b10d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:33 +0000
Subject: [PATCH 29/71] fix: tangential forces weight of planar and line
 contacts was applied to y and z instead of x and y

---
 src/placo/dynamics/contacts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 2062cd3..f76f84d 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -138,7 +138,7 @@ void Contact6D::add_constraints(Problem& problem)
   }
   if (weight_tangentials > 0)
   {
-    problem.add_constraint(f.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
@@ -212,7 +212,7 @@ void LineContact::add_constraints(Problem& problem)
   if (weight_tangentials > 0)
   {
     Expression f_surface = R_world_surface.transpose() * f;
-    problem.add_constraint(f_surface.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
-- 
2.43.0


From ad58f290be8aafbea4e1ce3d45728c5922ac2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:05 +0000
Subject: [PATCH 30/71] fix: restore the CRLF line endings of cubic_spline.cpp
 (converted by the duration() fix)

---
 src/placo/tools/cubic_spline.cpp | 388 +++++++++++++++----------------
 1 file changed, 194 insertions(+), 194 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index 65c2e42..2664615 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,194 +1,194 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-
-  return _points.back().t - _points.front().t;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else if (type == Speed)
-    {
-      return _points.front().dx;
-    }
-    else
-    {
-      return 0.0;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else if (type == Speed)
+    {
+      return _points.front().dx;
+    }
+    else
+    {
+      return 0.0;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 6201f4619bccf2fe5369336bb5b4f6af8a3589a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:05 +0000
Subject: [PATCH 31/71] fix: LineContact mixed its 5 components wrench up
 (rotated forces and moments together, read M_Z or out of bounds instead of
 M_Y)

---
 src/placo/dynamics/contacts.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index f76f84d..5f99717 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -184,7 +184,10 @@ void LineContact::add_constraints(Problem& problem)
     }
 
     // Expressing the force in the surface frame
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
+
+    // In a line contact, there are only two moments, which are actually M_Y and M_Z
+    Expression m_y = f.slice(3, 1);
 
     // The contact is unilateral
     problem.add_constraint(f_surface.slice(F_Z, 1) >= 0);
@@ -192,8 +195,8 @@ void LineContact::add_constraints(Problem& problem)
     // We want the ZMPs to remain in the contacts
     // We add constraints in the form of:
     // -l_1 f_x <= m_y <= l_1 f_x
-    problem.add_constraint(f_surface.slice(M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
-    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f_surface.slice(M_Y, 1));
+    problem.add_constraint(m_y <= ((length / 2) * f_surface.slice(F_Z, 1)));
+    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= m_y);
 
     // We don't slip
     problem.add_constraint(f_surface.slice(F_X, 1) <= mu * f_surface.slice(F_Z, 1));
@@ -206,12 +209,12 @@ void LineContact::add_constraints(Problem& problem)
   // Objective
   if (weight_forces > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);
   }
   if (weight_tangentials > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
@@ -223,7 +226,10 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), 0, 0);
+  Eigen::Vector3d f_surface = R_world_surface.transpose() * wrench.topRows(3);
+
+  // In a line contact, there are only two moments, which are actually M_Y and M_Z
+  return Eigen::Vector3d(-wrench(3, 0) / f_surface(F_Z), 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0


From f14ae0056ed0adf0ccc3cfaa5f267c4eee51de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:05 +0000
Subject: [PATCH 32/71] fix: LineContact.R_world_surface could not be accessed
 from Python

---
 bindings/expose-dynamics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index f4744e1..6ccc508 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -77,8 +77,8 @@ void exposeDynamics()
       .def_readwrite("length", &LineContact::length)
       .def("zmp", &LineContact::zmp)
       .add_property(
-          "R_world_surface", +[](PointContact& contact) { return contact.R_world_surface; },
-          +[](PointContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
+          "R_world_surface", +[](LineContact& contact) { return contact.R_world_surface; },
+          +[](LineContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
 
   class__<ExternalWrenchContact, bases<Contact>>("ExternalWrenchContact", init<RobotWrapper::FrameIndex>())
       .add_property("frame_index", &ExternalWrenchContact::frame_index)
-- 
2.43.0


From ad03cb37abf62a2287dede302af494b191a98663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:05 +0000
Subject: [PATCH 33/71] fix: dynamics RelativeOrientationTask mixed frames
 (targets and masks in a, Jlog, missing rotation of a), yielding wrong
 accelerations

---
 .../dynamics/relative_orientation_task.cpp    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/placo/dynamics/relative_orientation_task.cpp b/src/placo/dynamics/relative_orientation_task.cpp
index 95c1008..9fe26f0 100644
--- a/src/placo/dynamics/relative_orientation_task.cpp
+++ b/src/placo/dynamics/relative_orientation_task.cpp
@@ -31,24 +31,25 @@ void RelativeOrientationTask::update()
   Eigen::Matrix3d R_world_a = T_world_a.rotation();
   Eigen::Matrix3d R_a_b_real = T_world_a.rotation().transpose() * T_world_b.rotation();
   Eigen::Matrix3d M = (R_a_b * R_a_b_real.transpose()).matrix();
-  Eigen::Vector3d orientation_error_world = R_world_a * pinocchio::log3(M);
+  Eigen::Vector3d orientation_error = pinocchio::log3(M);
 
   // Computing A and b
   Eigen::Vector3d world_omega_a = Ja * solver->robot.state.qd;
   Eigen::Vector3d world_omega_b = Jb * solver->robot.state.qd;
   Eigen::Vector3d world_omega_a_b_real = world_omega_b - world_omega_a;
-  Eigen::Vector3d velocity_error_world = R_world_a * omega_a_b - world_omega_a_b_real;
+  Eigen::Vector3d velocity_error = omega_a_b - R_world_a.transpose() * world_omega_a_b_real;
 
-  Eigen::Vector3d desired_acceleration = kp * orientation_error_world + get_kd() * velocity_error_world + domega_a_b;
+  Eigen::Vector3d desired_acceleration = kp * orientation_error + get_kd() * velocity_error + domega_a_b;
 
-  Eigen::Matrix3d Jlog;
-  pinocchio::Jlog3(M, Jlog);
+  // The derivative of the angular velocity, expressed in a, is: J * qdd + e
+  Eigen::MatrixXd J = R_world_a.transpose() * (Jb - Ja);
+  Eigen::Vector3d e =
+      R_world_a.transpose() * ((dJb - dJa) * solver->robot.state.qd - world_omega_a.cross(world_omega_a_b_real));
 
-  // Acceleration is: J * qdd + dJ * qd
-  A = mask.apply(Jlog * (Jb - Ja));
-  b = mask.apply(desired_acceleration - Jlog * (dJb * solver->robot.state.qd - dJa * solver->robot.state.qd));
-  error = mask.apply(orientation_error_world);
-  derror = mask.apply(velocity_error_world);
+  A = mask.apply(J);
+  b = mask.apply(desired_acceleration - e);
+  error = mask.apply(orientation_error);
+  derror = mask.apply(velocity_error);
 }
 
 std::string RelativeOrientationTask::type_name()
-- 
2.43.0


From fa30ab9493cbb0b680e05951cd05720be7308db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:22 +0000
Subject: [PATCH 34/71] fix: Footstep::overlap missed feet crossing each other

The test only looked for a corner of a foot in the other one.
---
 src/placo/humanoid/footsteps_planner.cpp | 33 ++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a9262bd..ce4aca0 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -75,22 +75,29 @@ bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
   std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
   std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
 
-  for (auto pt : support1)
-  {
-    if (polygon_contains(support2, pt))
-    {
-      return true;
-    }
-  }
-  for (auto pt : support2)
-  {
-    if (polygon_contains(support1, pt))
+  // Two convex polygons are disjoint if, and only if, an edge of one of them separates them
+  auto has_separating_edge = [](const std::vector<Eigen::Vector2d>& a, const std::vector<Eigen::Vector2d>& b) {
+    for (size_t i = 0; i < a.size(); i++)
     {
-      return true;
+      Eigen::Vector2d v = a[(i + 1) % a.size()] - a[i];
+      Eigen::Vector2d n(v.y(), -v.x());
+
+      bool separates = true;
+      for (auto& pt : b)
+      {
+        separates = separates && n.dot(pt - a[i]) < 0;
+      }
+
+      if (separates)
+      {
+        return true;
+      }
     }
-  }
 
-  return false;
+    return false;
+  };
+
+  return !has_separating_edge(support1, support2) && !has_separating_edge(support2, support1);
 }
 
 bool FootstepsPlanner::Footstep::operator==(const Footstep& other)
-- 
2.43.0


From 20c38c37c1401cae0208b5cf0530cb9c263fcd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:22 +0000
Subject: [PATCH 35/71] fix: support polygons were not updated when footsteps
 moved

Polygons were cached, and moving or resizing a footstep (frame, set_frame_xy,
opposite_footstep, update_supports, foot_length...) did not invalidate them.
---
 src/placo/humanoid/footsteps_planner.cpp | 40 +++++++++++-------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index ce4aca0..d7d44ea 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -41,11 +41,9 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::compute_polygon(double
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon = compute_polygon();
-    computed_polygon = true;
-  }
+  // The frame and the size of the footstep are public, a previously computed polygon can be outdated
+  polygon = compute_polygon();
+  computed_polygon = true;
 
   return polygon;
 }
@@ -115,29 +113,27 @@ FootstepsPlanner::Support::Support(std::vector<Footstep> footsteps) : footsteps(
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon.clear();
+  // The footsteps are public, a previously computed polygon can be outdated
+  polygon.clear();
 
-    b_polygon poly, hull;
-    for (auto& footstep : footsteps)
+  b_polygon poly, hull;
+  for (auto& footstep : footsteps)
+  {
+    for (auto& pt : footstep.support_polygon())
     {
-      for (auto& pt : footstep.support_polygon())
-      {
-        boost::geometry::append(poly, b_point(pt.x(), pt.y()));
-      }
+      boost::geometry::append(poly, b_point(pt.x(), pt.y()));
     }
+  }
 
-    // Boost convex hull is also clockwise
-    boost::geometry::convex_hull(poly, hull);
+  // Boost convex hull is also clockwise
+  boost::geometry::convex_hull(poly, hull);
 
-    for (auto& pt : hull.outer())
-    {
-      polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
-    }
-    polygon.pop_back();
-    computed_polygon = true;
+  for (auto& pt : hull.outer())
+  {
+    polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
   }
+  polygon.pop_back();
+  computed_polygon = true;
 
   return polygon;
 }
-- 
2.43.0


From 61b1b92e5e088b7425d594346d53f1f123df38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:22 +0000
Subject: [PATCH 36/71] fix: make_supports read out of bounds with less than
 two footsteps

---
 src/placo/humanoid/footsteps_planner.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index d7d44ea..7313184 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -280,6 +280,11 @@ std::vector<FootstepsPlanner::Support> FootstepsPlanner::make_supports(
 
   if (end)
   {
+    if (footsteps.size() < 2)
+    {
+      throw std::runtime_error("make_supports: at least two footsteps are needed to make an end support");
+    }
+
     // Creating the first (double-support) initial state
     Support support({ footsteps[footsteps.size() - 2], footsteps[footsteps.size() - 1] });
     support.end = true;
-- 
2.43.0


From 594123f472e4f21a189bb865a7d251b0918aa3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:22 +0000
Subject: [PATCH 37/71] fix: truncate_supports read out of bounds for the first
 and last indices

---
 bindings/expose-footsteps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index 1dca123..64e4e74 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -65,7 +65,7 @@ void exposeFootsteps()
       .def("clipped_opposite_footstep", &FootstepsPlanner::clipped_opposite_footstep)
       .def(
           "truncate_supports", +[](const std::vector<FootstepsPlanner::Support>& supports, int index, bool add_end) {
-            if (index > (int)supports.size())
+            if (index < 0 || index > (int)supports.size() || (add_end && index == 0))
             {
               throw std::out_of_range("Index out of range for supports");
             }
@@ -78,6 +78,11 @@ void exposeFootsteps()
 
             if (add_end && !head.back().end)
             {
+              if (index == (int)supports.size())
+              {
+                throw std::out_of_range("No support after the given index to build the end support");
+              }
+
               FootstepsPlanner::Support end_support({ head.back().footsteps[0] });
               end_support.end = true;
               if (end_support.footsteps.size() == 1)
-- 
2.43.0


From d68516a81131fa4fdcf6bf8c19d36bfb9a506ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:22 +0000
Subject: [PATCH 38/71] fix: FootstepsPlannerNaive stopped before its target

A step shortened by the ellipsoid clipping was considered to have reached the target.
---
 src/placo/humanoid/footsteps_planner_naive.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/footsteps_planner_naive.cpp b/src/placo/humanoid/footsteps_planner_naive.cpp
index 14bbb3c..6d077f9 100644
--- a/src/placo/humanoid/footsteps_planner_naive.cpp
+++ b/src/placo/humanoid/footsteps_planner_naive.cpp
@@ -130,7 +130,13 @@ void FootstepsPlannerNaive::plan_impl(std::vector<FootstepsPlanner::Footstep>& f
 
     // Ellipsoid clipping
     Eigen::Vector3d step(error.x(), error.y(), error_yaw);
-    step = parameters.ellipsoid_clip(step);
+    Eigen::Vector3d clipped_step = parameters.ellipsoid_clip(step);
+    if (!clipped_step.isApprox(step))
+    {
+      // The step was shortened, the target is not reached yet
+      arrived = false;
+    }
+    step = clipped_step;
 
     // Computing new frame
     Eigen::Affine3d new_step;
-- 
2.43.0


From 3d4e63cda8f61a6f634c60cfc8b5e7046cfba960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 39/71] fix: SwingFootQuintic was wrong when not starting
 around t=0

The polynom was fitted on absolute times (ill conditioned system), t_start and t_end
were left uninitialized, and the coefficients vectors were not completely filled.
---
 src/placo/humanoid/swing_foot_quintic.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 25fd927..1674cf4 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -5,7 +5,7 @@ namespace placo::humanoid
 {
 Eigen::VectorXd quintic_pos_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << pow(t, 5), pow(t, 4), pow(t, 3), pow(t, 2), pow(t, 1), 1;
 
@@ -14,7 +14,7 @@ Eigen::VectorXd quintic_pos_times(double t)
 
 Eigen::VectorXd quintic_d_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 5 * pow(t, 4), 4 * pow(t, 3), 3 * pow(t, 2), 2 * pow(t, 1), 1, 0;
 
@@ -23,7 +23,7 @@ Eigen::VectorXd quintic_d_times(double t)
 
 Eigen::VectorXd quintic_dd_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 20 * pow(t, 3), 12 * pow(t, 2), 6 * pow(t, 1), 2, 0, 0;
 
@@ -34,6 +34,12 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
                                                                Eigen::Vector3d start, Eigen::Vector3d target)
 {
   Trajectory trajectory;
+  trajectory.t_start = t_start;
+  trajectory.t_end = t_end;
+
+  // The polynom is expressed in the time elapsed since t_start, to be well conditioned
+  t_end -= t_start;
+  t_start = 0.;
 
   double t_a = t_start + (t_end - t_start) / 4.;
   double t_b = t_start + 3 * (t_end - t_start) / 4.;
@@ -90,6 +96,7 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
@@ -100,6 +107,7 @@ Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::vel(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
-- 
2.43.0


From 6672eb0796b7e86cf5b940dd68ed343474418707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 40/71] fix: Trajectory::get_prev_support overwrote the parts
 of the trajectory

The parts were assigned through a reference.
---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2df25ab..fe0d42f 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -280,12 +280,9 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
-  TrajectoryPart& part = _findPart(parts, t);
-  for (int i = 0; i < n; i++)
-  {
-    part = _findPart(parts, part.t_start - 1e-4);
-  }
-  return T * part.support;
+  int index;
+  _findPart(parts, t, &index);
+  return T * parts[std::max(0, index - n)].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From 43b389c31c95837633ed34b91270082b1a9b7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 41/71] fix: feet velocities raised an exception during double
 supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index fe0d42f..51b1974 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -124,7 +124,7 @@ Eigen::Affine3d WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Right)
+  if (is_flying(HumanoidRobot::Left, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
@@ -134,7 +134,7 @@ Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_right(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Left)
+  if (is_flying(HumanoidRobot::Right, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
-- 
2.43.0


From 11434ca39a21237a2da6196037830b5b6be977be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 42/71] fix: planning a walk starting or ending in single
 support read out of bounds

---
 src/placo/humanoid/walk_pattern_generator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 51b1974..ba1c612 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -340,6 +340,14 @@ void WalkPatternGenerator::plan_sgl_support(Trajectory& trajectory, int part_ind
 
   // Swing trajectory
   HumanoidRobot::Side flying_side = HumanoidRobot::other_side(part.support.footsteps[0].side);
+  if (part_index + 1 >= (int)trajectory.parts.size())
+  {
+    throw std::runtime_error("Can't plan a trajectory ending with a single support");
+  }
+  if (part_index == 0 && old_trajectory == nullptr)
+  {
+    throw std::runtime_error("Can't plan a trajectory starting with a single support");
+  }
   Eigen::Affine3d T_world_end = trajectory.parts[part_index + 1].support.footstep_frame(flying_side);
 
   double virt_duration = support_default_duration(part.support) * part.support.time_ratio;
-- 
2.43.0


From 54af3fc6c242b149b52e33cda0f7a947c19937da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 43/71] fix: WPGTrajectory.parts raised a TypeError (vector of
 parts not registered)

---
 bindings/expose-walk-pattern-generator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 2e491fd..e93bba3 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -36,7 +36,16 @@ void exposeWalkPatternGenerator()
       .add_property("com_target_z", &WalkPatternGenerator::Trajectory::com_target_z)
       .add_property("trunk_pitch", &WalkPatternGenerator::Trajectory::trunk_pitch)
       .add_property("trunk_roll", &WalkPatternGenerator::Trajectory::trunk_roll)
-      .add_property("parts", &WalkPatternGenerator::Trajectory::parts)
+      .add_property(
+          "parts",
+          +[](WalkPatternGenerator::Trajectory& trajectory) {
+            boost::python::list parts;
+            for (auto& part : trajectory.parts)
+            {
+              parts.append(part);
+            }
+            return parts;
+          })
       .add_property("replan_success", &WalkPatternGenerator::Trajectory::replan_success)
       .def("get_T_world_left", &WalkPatternGenerator::Trajectory::get_T_world_left)
       .def("get_T_world_right", &WalkPatternGenerator::Trajectory::get_T_world_right)
-- 
2.43.0


From c0fbb16f06fda62138e0c98f7dc486c0f9073f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 44/71] fix: WPGTrajectory.get_v_world_left was not exposed

---
 bindings/expose-walk-pattern-generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index e93bba3..9ec4570 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -49,6 +49,7 @@ void exposeWalkPatternGenerator()
       .add_property("replan_success", &WalkPatternGenerator::Trajectory::replan_success)
       .def("get_T_world_left", &WalkPatternGenerator::Trajectory::get_T_world_left)
       .def("get_T_world_right", &WalkPatternGenerator::Trajectory::get_T_world_right)
+      .def("get_v_world_left", &WalkPatternGenerator::Trajectory::get_v_world_left)
       .def("get_v_world_right", &WalkPatternGenerator::Trajectory::get_v_world_right)
       .def("get_v_world_foot", &WalkPatternGenerator::Trajectory::get_v_world_foot)
       .def("get_p_world_CoM", &WalkPatternGenerator::Trajectory::get_p_world_CoM)
-- 
2.43.0


From c576dd9acccc6d8d68f18347354d3ba0008b5eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 45/71] fix: transforming a support left its target DCM behind

---
 src/placo/humanoid/footsteps_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index 7313184..cb35e4d 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -208,6 +208,8 @@ FootstepsPlanner::Support operator*(Eigen::Affine3d T, const FootstepsPlanner::S
     footstep.computed_polygon = false;
   }
   new_support.computed_polygon = false;
+  new_support.target_world_dcm =
+      (T * Eigen::Vector3d(support.target_world_dcm.x(), support.target_world_dcm.y(), 0.)).head(2);
 
   return new_support;
 }
-- 
2.43.0


From 08e5accdc37d2fb00ea8c8fca79b8bec17055f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:17 +0000
Subject: [PATCH 46/71] fix: replan_supports gave the next double support the
 start time of the current support

---
 src/placo/humanoid/walk_pattern_generator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index ba1c612..8387601 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -639,6 +639,12 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::replan_supports(Foo
                                                parameters.has_double_support(), true);
   }
 
+  // Only the current support is already started
+  for (size_t k = 1; k < supports.size(); k++)
+  {
+    supports[k].t_start = -1;
+  }
+
   double elapsed_duration = t_replan - std::max(t_last_replan, current_support.t_start);
   supports[0].elapsed_ratio =
       current_support.elapsed_ratio +
-- 
2.43.0


From 85c5db870113cfe2e7669a8942eeb3a683c71f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:17 +0000
Subject: [PATCH 47/71] fix: update_supports ignored the flipped DCM offset
 polygon for right supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 8387601..c7ba720 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -750,7 +750,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
       point(0) = -point(0);
       point(1) = -point(1);
     }
-    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), parameters.dcm_offset_polygon))
+    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), dcm_offset_polygon))
         .configure(ProblemConstraint::Soft, w_viability);
   }
   else
-- 
2.43.0


From 939b0a64a39e259616342c50fc9519bb6df98c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:05 +0000
Subject: [PATCH 48/71] fix: CoM velocity from the IMU works for robots which
 do not have 20 joints

---
 src/placo/humanoid/humanoid_robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index cd38c52..c55b0fb 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -140,7 +140,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   // CoM Jacobians
   Eigen::Matrix3Xd J_C = com_jacobian();
   Eigen::Matrix3Xd J_u_C = J_C.leftCols(6);
-  Eigen::Matrix3Xd J_a_C = J_C.rightCols(20);
+  Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
   Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
@@ -151,7 +151,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::MatrixXd J(6, J_contact.cols());
   J << J_contact.topRows(3), J_IMU.bottomRows(3);
   Eigen::MatrixXd J_u = J.leftCols(6);
-  Eigen::MatrixXd J_a = J.rightCols(20);
+  Eigen::MatrixXd J_a = J.rightCols(model.nv - 6);
 
   Eigen::MatrixXd J_u_inv = J_u.inverse();
 
-- 
2.43.0


From ddcffbbc66cb8e880a86c5629797ab71b989717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:05 +0000
Subject: [PATCH 49/71] fix: CoM velocity from the IMU uses the support foot it
 is given

---
 src/placo/humanoid/humanoid_robot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index c55b0fb..0ff5609 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -143,7 +143,12 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
-  Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
+  pinocchio::FrameIndex contact_frame = support_frame;
+  if (support != support_side)
+  {
+    contact_frame = (support == Left) ? left_foot : right_foot;
+  }
+  Eigen::MatrixXd J_contact = frame_jacobian(contact_frame, pinocchio::ReferenceFrame::LOCAL);
 
   // IMU body Jacobian
   Eigen::MatrixXd J_IMU = frame_jacobian("trunk", "local");
-- 
2.43.0


From 7298622cad11521e5626652f6244eff61c778de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:17 +0000
Subject: [PATCH 50/71] fix: WalkTasks::get_tasks_error reported feet position
 errors as orientation errors

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 8f46098..9ccc3ec 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -150,8 +150,8 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_orientation"] = left_foot_task.position->error();
-  error["right_foot_orientation"] = right_foot_task.position->error();
+  error["left_foot_position"] = left_foot_task.position->error();
+  error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
   if (trunk_mode)
   {
-- 
2.43.0


From 715aa5e4c7a984f97be872b1ddcadb7da930cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:17 +0000
Subject: [PATCH 51/71] fix: WalkTasks::get_tasks_error dereferenced a null
 task when trunk_mode was changed since the last update

---
 src/placo/humanoid/walk_tasks.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 9ccc3ec..e26bb1e 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -153,11 +153,12 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   error["left_foot_position"] = left_foot_task.position->error();
   error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
-  if (trunk_mode)
+  // The active task is the one of the last update (trunk_mode might have been changed since)
+  if (trunk_task != nullptr)
   {
     error["trunk_position"] = trunk_task->error();
   }
-  else
+  if (com_task != nullptr)
   {
     error["com_position"] = com_task->error();
   }
-- 
2.43.0


From b9159656c36b42f1403f4d6cb292114fc7e1abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:17 +0000
Subject: [PATCH 52/71] fix: reading WalkTasks.solver copied the solver, whose
 destruction deleted the tasks of the original

---
 bindings/expose-walk-pattern-generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 9ec4570..28c40a9 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -142,8 +142,9 @@ void exposeWalkPatternGenerator()
             }
             return dict;
           })
-      .add_property(
-          "solver", +[](WalkTasks& tasks) { return *tasks.solver; })
+      .add_property("solver", make_function(
+                                  +[](WalkTasks& tasks) -> KinematicsSolver* { return tasks.solver; },
+                                  return_value_policy<reference_existing_object>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
-- 
2.43.0


From 20d33a089c35c402bf81e8ce819ec26c7d296803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:21 +0000
Subject: [PATCH 53/71] fix: WalkTasks::get_tasks_error read empty vectors for
 tasks which were not solved yet

---
 src/placo/humanoid/walk_tasks.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index e26bb1e..ff3af93 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -145,22 +145,32 @@ void WalkTasks::update_tasks_and_pid(WalkPatternGenerator::Trajectory& trajector
                trajectory.get_R_world_trunk(t));
 }
 
+static Eigen::MatrixXd task_error(Task& task)
+{
+  if (task.b.rows() == 0)
+  {
+    // The task was never evaluated by the solver
+    task.update();
+  }
+  return task.error();
+}
+
 std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
 {
   std::map<std::string, Eigen::Vector3d> error;
-  error["left_foot_orientation"] = left_foot_task.orientation->error();
-  error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_position"] = left_foot_task.position->error();
-  error["right_foot_position"] = right_foot_task.position->error();
-  error["trunk_orientation"] = trunk_orientation_task->error();
+  error["left_foot_orientation"] = task_error(*left_foot_task.orientation);
+  error["right_foot_orientation"] = task_error(*right_foot_task.orientation);
+  error["left_foot_position"] = task_error(*left_foot_task.position);
+  error["right_foot_position"] = task_error(*right_foot_task.position);
+  error["trunk_orientation"] = task_error(*trunk_orientation_task);
   // The active task is the one of the last update (trunk_mode might have been changed since)
   if (trunk_task != nullptr)
   {
-    error["trunk_position"] = trunk_task->error();
+    error["trunk_position"] = task_error(*trunk_task);
   }
   if (com_task != nullptr)
   {
-    error["com_position"] = com_task->error();
+    error["com_position"] = task_error(*com_task);
   }
   return error;
 }
-- 
2.43.0


From 20467dc64e2befa69348787f29e546b91bd2b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:20 +0000
Subject: [PATCH 54/71] fix: DummyWalk could not be created without a plateau
 in the foot lift (rise ratio of 0)

---
 src/placo/humanoid/dummy_walk.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/dummy_walk.cpp b/src/placo/humanoid/dummy_walk.cpp
index ebb7718..6125332 100644
--- a/src/placo/humanoid/dummy_walk.cpp
+++ b/src/placo/humanoid/dummy_walk.cpp
@@ -27,7 +27,10 @@ void DummyWalk::reset(bool support_left_)
   lift_spline.clear();
   lift_spline.add_point(0, 0, 0);
   lift_spline.add_point(0.5 - parameters.walk_foot_rise_ratio / 2, parameters.walk_foot_height, 0);
-  lift_spline.add_point(0.5 + parameters.walk_foot_rise_ratio / 2, parameters.walk_foot_height, 0);
+  if (parameters.walk_foot_rise_ratio > 0)
+  {
+    lift_spline.add_point(0.5 + parameters.walk_foot_rise_ratio / 2, parameters.walk_foot_height, 0);
+  }
   lift_spline.add_point(1, 0, 0);
 
   robot.reset();
-- 
2.43.0


From c467974ddaa8f07904090db95d8d6e5df1facfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 55/71] fix: DummyWalk::update_T_world_support placed the
 support foot using outdated kinematics

---
 src/placo/humanoid/dummy_walk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/placo/humanoid/dummy_walk.cpp b/src/placo/humanoid/dummy_walk.cpp
index 6125332..d9f80f4 100644
--- a/src/placo/humanoid/dummy_walk.cpp
+++ b/src/placo/humanoid/dummy_walk.cpp
@@ -97,6 +97,9 @@ void DummyWalk::update_T_world_support(Eigen::Affine3d T_world_support)
   T_world_right = tools::flatten_on_floor(T * T_world_right);
   T_world_next = tools::flatten_on_floor(T * T_world_next);
 
+  // The configuration might have changed since the last kinematics update (solver, user)
+  robot.update_kinematics();
+
   if (support_left)
   {
     robot.set_T_world_frame("left_foot", T_world_left);
-- 
2.43.0


From 732823ed8008a0ae7b3bd06bd0751aaf976f6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 56/71] fix: scalars of expressions were truncated to single
 precision in Python

---
 bindings/expose-problem.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index 79037d9..f06583a 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -152,17 +152,17 @@ void exposeProblem()
       .def(self / self)
       .def(self + self)
       .def(self - self)
-      .def(self * float())
-      .def(float() * self)
+      .def(self * double())
+      .def(double() * self)
       .def(self * self)
       .def(self + other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() + self)
       .def(self - other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() - self)
-      .def(self + float())
-      .def(float() + self)
-      .def(self - float())
-      .def(float() - self)
+      .def(self + double())
+      .def(double() + self)
+      .def(self - double())
+      .def(double() - self)
       .def(other<Eigen::MatrixXd>() * self)
       .def("left_multiply", &Expression::left_multiply)
       // Compare to build constraints
@@ -171,12 +171,12 @@ void exposeProblem()
       .def(self == self)
       .def(self == other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() == self)
-      .def(self == float())
-      .def(float() == self)
-      .def(self <= float())
-      .def(float() <= self)
-      .def(self >= float())
-      .def(float() >= self)
+      .def(self == double())
+      .def(double() == self)
+      .def(self <= double())
+      .def(double() <= self)
+      .def(self >= double())
+      .def(double() >= self)
       .def(self <= other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() <= self)
       .def(self >= other<Eigen::VectorXd>())
-- 
2.43.0


From acbc7f0242255df4c59b278c26d3fae107592784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:08 +0000
Subject: [PATCH 57/71] fix: HumanoidRobot::camera_look_at missed its target by
 the height of the tilt axis

---
 src/placo/humanoid/humanoid_robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index 0ff5609..0b21163 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -226,8 +226,8 @@ bool HumanoidRobot::camera_look_at(double& pan, double& tilt, const Eigen::Vecto
 
   double theta = M_PI / 2 - atan2(P_headPitchPlane_target.y(), P_headPitchPlane_target.x());
 
-  // We just use beta = cos(opposed / hypothenus) to watch it with camera
-  double ratio = dist_z_pan_camera / P_headPitchPlane_target.norm();
+  // We just use beta = cos(opposed / hypothenus) to watch it with camera (which is above the tilt axis)
+  double ratio = (dist_z_pan_camera - dist_z_pan_tilt) / P_headPitchPlane_target.norm();
   if (ratio > 1 || ratio < -1)
   {
     return false;
-- 
2.43.0


From 9d932509fa8049bf93d5e1f3f65720b0ffdb312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:56 +0000
Subject: [PATCH 58/71] fix: contacts_viz stopped at the first inactive contact
 and kept arrows of vanished contacts

---
 python/placo_utils/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/placo_utils/visualization.py b/python/placo_utils/visualization.py
index cc697cb..9b51cd0 100644
--- a/python/placo_utils/visualization.py
+++ b/python/placo_utils/visualization.py
@@ -286,8 +286,8 @@ def contacts_viz(solver: placo.DynamicsSolver, ratio=0.1, radius=0.005):
     frames = robot.frame_names()
     k = 0
 
-    for _ in range(solver.count_contacts()):
-        contact = solver.get_contact(k)
+    for i in range(solver.count_contacts()):
+        contact = solver.get_contact(i)
         if not contact.active:
             continue
 
@@ -345,6 +345,8 @@ def contacts_viz(solver: placo.DynamicsSolver, ratio=0.1, radius=0.005):
                 color=0xFF2222,
                 radius=radius,
             )
+        else:
+            continue
 
         k += 1
 
-- 
2.43.0


From d429d7d4626283c3873913c9bf1714eadce2359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:56 +0000
Subject: [PATCH 59/71] fix: contacts_viz drew the force of line contacts in
 the wrong frame

---
 python/placo_utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/placo_utils/visualization.py b/python/placo_utils/visualization.py
index 9b51cd0..7c07dae 100644
--- a/python/placo_utils/visualization.py
+++ b/python/placo_utils/visualization.py
@@ -321,7 +321,7 @@ def contacts_viz(solver: placo.DynamicsSolver, ratio=0.1, radius=0.005):
         elif isinstance(contact, placo.LineContact):
             frame_name = frames[contact.position_task().frame_index]
             T_world_frame = robot.get_T_world_frame(frame_name)
-            wrench = T_world_frame[:3, :3] @ contact.wrench[:3]
+            wrench = contact.wrench[:3]  # already expressed in the world
 
             if np.linalg.norm(wrench) < 1e-6:
                 origin = T_world_frame[:3, 3]
-- 
2.43.0


From 3785150ade1f2b25300a4cd43e8db766bd9c395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:42 +0000
Subject: [PATCH 60/71] fix: DynamicsSolver.robot was a copy of the robot in
 Python

---
 bindings/expose-dynamics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 6ccc508..e47f0b9 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -128,8 +128,9 @@ void exposeDynamics()
       .def("remove_constraint", &DynamicsSolver::remove_constraint)
       .def("set_kp", &DynamicsSolver::set_kp)
       .def("set_kd", &DynamicsSolver::set_kd)
-      .add_property(
-          "robot", +[](const DynamicsSolver& solver) { return solver.robot; })
+      .add_property("robot", make_function(
+                                 +[](const DynamicsSolver& solver) -> RobotWrapper& { return solver.robot; },
+                                 return_value_policy<reference_existing_object>()))
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-- 
2.43.0


From c7f35ec9bbe8619abe73085167cf5ff81b701304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:42 +0000
Subject: [PATCH 61/71] fix: DynamicsSolver.get_contact read out of bounds

---
 bindings/expose-dynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index e47f0b9..bfc49b2 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -134,7 +134,7 @@ void exposeDynamics()
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts[i]; },
+          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts.at(i); },
           return_internal_reference<>())
       .def<PositionTask& (DynamicsSolver::*)(std::string, Eigen::Vector3d)>(
           "add_position_task", &DynamicsSolver::add_position_task, return_internal_reference<>())
-- 
2.43.0


From 9e070b707dd7d49b7c8c7447bcc62c288ef2f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:04 +0000
Subject: [PATCH 62/71] fix: WalkTasks DCM feedback started from uninitialised
 memory

---
 src/placo/humanoid/walk_tasks.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.h b/src/placo/humanoid/walk_tasks.h
index 38a43b6..3bf6f65 100644
--- a/src/placo/humanoid/walk_tasks.h
+++ b/src/placo/humanoid/walk_tasks.h
@@ -48,7 +48,7 @@ public:
   double K_d = 0.;
 
   double lambda = 0.01;
-  Eigen::Vector2d integral;
-  Eigen::Vector2d last_error;
+  Eigen::Vector2d integral = Eigen::Vector2d::Zero();
+  Eigen::Vector2d last_error = Eigen::Vector2d::Zero();
 };
 }  // namespace placo::humanoid
\ No newline at end of file
-- 
2.43.0


From 2a41df5b00da18411812e1060ac63fb1b2cb3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:45 +0000
Subject: [PATCH 63/71] fix: Collision.get_contact read out of bounds

---
 bindings/expose-robot-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index a4711d9..9fc8266 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -161,7 +161,7 @@ void exposeRobotWrapper()
       .add_property("parentA", &RobotWrapper::Collision::parentA)
       .add_property("parentB", &RobotWrapper::Collision::parentB)
       .def(
-          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts[index]; });
+          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts.at(index); });
 
   class__<RobotWrapper::Distance>("Distance")
       .add_property("objA", &RobotWrapper::Distance::objA)
-- 
2.43.0


From cd456d30bf8af3bbf2b845e53e26dd050c723b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:45 +0000
Subject: [PATCH 64/71] fix: derivatives of polynoms of high degree overflowed

---
 src/placo/tools/polynom.cpp | 4 ++--
 src/placo/tools/polynom.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/tools/polynom.cpp b/src/placo/tools/polynom.cpp
index 4c40ecd..60e5ef4 100644
--- a/src/placo/tools/polynom.cpp
+++ b/src/placo/tools/polynom.cpp
@@ -6,14 +6,14 @@ Polynom::Polynom(Eigen::VectorXd coefficients) : coefficients(coefficients)
 {
 }
 
-int Polynom::derivative_coefficient(int degree, int derivative)
+double Polynom::derivative_coefficient(int degree, int derivative)
 {
   if (derivative > degree)
   {
     return 0;
   }
 
-  int coefficient = 1;
+  double coefficient = 1;
 
   while (derivative > 0)
   {
diff --git a/src/placo/tools/polynom.h b/src/placo/tools/polynom.h
index 018bff7..187f0da 100644
--- a/src/placo/tools/polynom.h
+++ b/src/placo/tools/polynom.h
@@ -15,7 +15,7 @@ public:
    * @param derivative number of differentiations
    * @return coefficient
    */
-  static int derivative_coefficient(int degree, int derivative);
+  static double derivative_coefficient(int degree, int derivative);
 
   /**
    * @brief Computes the value of polynom
-- 
2.43.0


From 0d8ccf05f7196c288e02998b10491c249411dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:45 +0000
Subject: [PATCH 65/71] fix: polynoms accessed their coefficients out of bounds
 for a negative differentiation order

---
 src/placo/problem/problem_polynom.cpp | 5 +++++
 src/placo/tools/polynom.cpp           | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/placo/problem/problem_polynom.cpp b/src/placo/problem/problem_polynom.cpp
index 7892e72..439105f 100644
--- a/src/placo/problem/problem_polynom.cpp
+++ b/src/placo/problem/problem_polynom.cpp
@@ -9,6 +9,11 @@ ProblemPolynom::ProblemPolynom(Variable& variable) : variable(&variable)
 
 Expression ProblemPolynom::expr(double x, int derivative)
 {
+  if (derivative < 0)
+  {
+    throw std::runtime_error("ProblemPolynom: the differentiation order can't be negative");
+  }
+
   Eigen::MatrixXd coefficients(1, variable->size());
   coefficients.setZero();
 
diff --git a/src/placo/tools/polynom.cpp b/src/placo/tools/polynom.cpp
index 60e5ef4..d5f4733 100644
--- a/src/placo/tools/polynom.cpp
+++ b/src/placo/tools/polynom.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include "placo/tools/polynom.h"
 
 namespace placo::tools
@@ -27,6 +28,11 @@ double Polynom::derivative_coefficient(int degree, int derivative)
 
 double Polynom::value(double x, int differentiate)
 {
+  if (differentiate < 0)
+  {
+    throw std::runtime_error("Polynom: the differentiation order can't be negative");
+  }
+
   double p = 0;
 
   double x_pow = 1;
-- 
2.43.0


From 499cb23d1a535e1f0c17522fff14f77b9ece3808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:22 +0000
Subject: [PATCH 66/71] fix: get_next_support and get_prev_support read out of
 bounds for a negative count

---
 src/placo/humanoid/walk_pattern_generator.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index c7ba720..dcc7abf 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -271,18 +271,14 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 {
   int index;
   _findPart(parts, t, &index);
-  if (index + n >= (int)parts.size())
-  {
-    return T * parts.back().support;
-  }
-  return T * parts[index + n].support;
+  return T * parts[std::clamp(index + n, 0, (int)parts.size() - 1)].support;
 }
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
   int index;
   _findPart(parts, t, &index);
-  return T * parts[std::max(0, index - n)].support;
+  return T * parts[std::clamp(index - n, 0, (int)parts.size() - 1)].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From df3571d05bdcea1bf8f2f377fda66f0915a2206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:22 +0000
Subject: [PATCH 67/71] fix: undefined behaviour of a support without footsteps

---
 src/placo/humanoid/footsteps_planner.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index cb35e4d..116056e 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -116,6 +116,11 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
   // The footsteps are public, a previously computed polygon can be outdated
   polygon.clear();
 
+  if (footsteps.empty())
+  {
+    return polygon;
+  }
+
   b_polygon poly, hull;
   for (auto& footstep : footsteps)
   {
@@ -140,6 +145,11 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
 
 Eigen::Affine3d FootstepsPlanner::Support::frame()
 {
+  if (footsteps.empty())
+  {
+    throw std::runtime_error("Asking frame() for a support without footsteps");
+  }
+
   Eigen::Affine3d f;
   int n = 1;
 
@@ -190,6 +200,11 @@ HumanoidRobot::Side FootstepsPlanner::Support::side()
     throw std::runtime_error("Asking side() for a double support (call is_both() before)");
   }
 
+  if (footsteps.empty())
+  {
+    throw std::runtime_error("Asking side() for a support without footsteps");
+  }
+
   return footsteps[0].side;
 }
 
-- 
2.43.0


From 97e92137b683cddc996d75e0b15ab8f78d3f62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 68/71] fix: setting a gear on a gear task which is not yet in
 a solver crashes

---
 src/placo/dynamics/gear_task.cpp   | 10 ++++++++++
 src/placo/kinematics/gear_task.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index b0aac01..46da0fa 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,6 +9,11 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
+  if (solver == nullptr)
+  {
+    throw std::runtime_error("GearTask: the task should be added to a solver before setting gears");
+  }
+
   int target_id = solver->robot.get_joint_v_offset(target);
   gears[target_id].clear();
 
@@ -17,6 +22,11 @@ void GearTask::set_gear(std::string target, std::string source, double ratio)
 
 void GearTask::add_gear(std::string target, std::string source, double ratio)
 {
+  if (solver == nullptr)
+  {
+    throw std::runtime_error("GearTask: the task should be added to a solver before adding gears");
+  }
+
   int target_id = solver->robot.get_joint_v_offset(target);
   int source_id = solver->robot.get_joint_v_offset(source);
 
diff --git a/src/placo/kinematics/gear_task.cpp b/src/placo/kinematics/gear_task.cpp
index c80ffca..87de742 100644
--- a/src/placo/kinematics/gear_task.cpp
+++ b/src/placo/kinematics/gear_task.cpp
@@ -9,6 +9,11 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
+  if (solver == nullptr)
+  {
+    throw std::runtime_error("GearTask: the task should be added to a solver before setting gears");
+  }
+
   int target_id = solver->robot.get_joint_v_offset(target);
   gears[target_id].clear();
 
@@ -17,6 +22,11 @@ void GearTask::set_gear(std::string target, std::string source, double ratio)
 
 void GearTask::add_gear(std::string target, std::string source, double ratio)
 {
+  if (solver == nullptr)
+  {
+    throw std::runtime_error("GearTask: the task should be added to a solver before adding gears");
+  }
+
   int target_id = solver->robot.get_joint_v_offset(target);
   int source_id = solver->robot.get_joint_v_offset(source);
 
-- 
2.43.0


From e8acc1d9dc127ca3ccd3c26567b4475677efdff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:39 +0000
Subject: [PATCH 69/71] fix: a regularization task moved to another solver
 keeps the weights of the first robot

---
 src/placo/kinematics/regularization_task.cpp | 26 ++++++++------------
 src/placo/kinematics/regularization_task.h   |  5 ----
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/placo/kinematics/regularization_task.cpp b/src/placo/kinematics/regularization_task.cpp
index e9ef46f..8531c05 100644
--- a/src/placo/kinematics/regularization_task.cpp
+++ b/src/placo/kinematics/regularization_task.cpp
@@ -6,13 +6,11 @@ namespace placo::kinematics
 void RegularizationTask::set_weight(double weight)
 {
   this->default_weight = weight;
-  dirty = true;
 }
 
 void RegularizationTask::set_joint_weight(std::string joint, double weight)
 {
   joint_weights[joint] = weight;
-  dirty = true;
 }
 
 void RegularizationTask::update()
@@ -20,23 +18,19 @@ void RegularizationTask::update()
   // Regularization task if of the form
   // W \Delta q = 0
   // Weight is square rooted to be consistent with other tasks (W will be squared in the QP)
-  if (dirty)
-  {
-    W = Eigen::MatrixXd(solver->N, solver->N);
-    W.setIdentity();
-    W *= sqrt(default_weight);
+  W = Eigen::MatrixXd(solver->N, solver->N);
+  W.setIdentity();
+  W *= sqrt(default_weight);
 
-    // Per-joint overrides
-    for (auto& entry : joint_weights)
+  // Per-joint overrides
+  for (auto& entry : joint_weights)
+  {
+    int joint_id = solver->robot.get_joint_v_offset(entry.first);
+    int joint_size = solver->robot.get_joint_v_size(entry.first);
+    for (int i = 0; i < joint_size; i++)
     {
-      int joint_id = solver->robot.get_joint_v_offset(entry.first);
-      int joint_size = solver->robot.get_joint_v_size(entry.first);
-      for (int i = 0; i < joint_size; i++)
-      {
-        W(joint_id + i, joint_id + i) = sqrt(entry.second);
-      }
+      W(joint_id + i, joint_id + i) = sqrt(entry.second);
     }
-    dirty = false;
   }
 
   A = Eigen::MatrixXd(solver->N - 6, solver->N);
diff --git a/src/placo/kinematics/regularization_task.h b/src/placo/kinematics/regularization_task.h
index 824dcb4..6ab7c27 100644
--- a/src/placo/kinematics/regularization_task.h
+++ b/src/placo/kinematics/regularization_task.h
@@ -35,11 +35,6 @@ protected:
    */
   double default_weight = 1.0;
 
-  /**
-   * @brief Indicates whether W needs to be recomputed
-   */
-  bool dirty = true;
-
   /**
    * @brief Matrix such that W \Delta q = 0 is the regularization task
    */
-- 
2.43.0


From 6d75e710b1c4ff678ff8c3ee0cf9b180196a31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:12 +0000
Subject: [PATCH 70/71] fix: footstep clipping gives NaN steps when a maximum
 step is zero

---
 src/placo/humanoid/humanoid_parameters.cpp | 45 ++++++++++------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/placo/humanoid/humanoid_parameters.cpp b/src/placo/humanoid/humanoid_parameters.cpp
index f527a59..7bb71a6 100644
--- a/src/placo/humanoid/humanoid_parameters.cpp
+++ b/src/placo/humanoid/humanoid_parameters.cpp
@@ -35,63 +35,60 @@ bool HumanoidParameters::has_double_support()
   return double_support_timesteps() > 0;
 }
 
+// Step components relative to their maximum, a component which is zero is always allowed (even if its maximum is 0)
+static Eigen::Vector3d step_ratio(const Eigen::Vector3d& step, const Eigen::Vector3d& factor)
+{
+  Eigen::Vector3d ratio = Eigen::Vector3d::Zero();
+  for (int k = 0; k < 3; k++)
+  {
+    if (step[k] != 0)
+    {
+      ratio[k] = step[k] / factor[k];
+    }
+  }
+
+  return ratio;
+}
+
 Eigen::Vector3d HumanoidParameters::ellipsoid_clip(Eigen::Vector3d step)
 {
   Eigen::Vector3d factor((step.x() >= 0) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);
-  step.x() /= factor.x();
-  step.y() /= factor.y();
-  step.z() /= factor.z();
+  Eigen::Vector3d ratio = step_ratio(step, factor);
 
-  double norm = step.norm();
+  double norm = ratio.norm();
   if (norm > 1)
   {
     step /= norm;
   }
 
-  step.x() *= factor.x();
-  step.y() *= factor.y();
-  step.z() *= factor.z();
-
   return step;
 }
 
 Eigen::Vector3d HumanoidParameters::box_clip(Eigen::Vector3d step)
 {
   Eigen::Vector3d factor((step.x() >= 0) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);
-  step.x() /= factor.x();
-  step.y() /= factor.y();
-  step.z() /= factor.z();
+  Eigen::Vector3d ratio = step_ratio(step, factor);
 
-  double norm = fabs(step.x()) + fabs(step.y()) + fabs(step.z());
+  double norm = fabs(ratio.x()) + fabs(ratio.y()) + fabs(ratio.z());
   if (norm > 1)
   {
     step /= norm;
   }
 
-  step.x() *= factor.x();
-  step.y() *= factor.y();
-  step.z() *= factor.z();
-
   return step;
 }
 
 Eigen::Vector3d HumanoidParameters::conic_clip(Eigen::Vector3d step)
 {
   Eigen::Vector3d factor((step.x() >= 0) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);
-  step.x() /= factor.x();
-  step.y() /= factor.y();
-  step.z() /= factor.z();
+  Eigen::Vector3d ratio = step_ratio(step, factor);
 
-  double norm = sqrt(step.x() * step.x() + step.y() * step.y()) + fabs(step.z());
+  double norm = sqrt(ratio.x() * ratio.x() + ratio.y() * ratio.y()) + fabs(ratio.z());
   if (norm > 1)
   {
     step /= norm;
   }
 
-  step.x() *= factor.x();
-  step.y() *= factor.y();
-  step.z() *= factor.z();
-
   return step;
 }
 
-- 
2.43.0


From 38ba7023219b1197d8d39c8447b036328a1f6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:31 +0000
Subject: [PATCH 71/71] fix: a model loaded by its file name alone finds the
 collision list and meshes next to it

The directory of such a path was taken as the root of the file system
---
 src/placo/model/robot_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 689f5c7..6ea4e7a 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -28,7 +28,8 @@ RobotWrapper::RobotWrapper(std::string model_directory, int flags, std::string u
   {
     fs::path path = model_directory;
     urdf_filename = model_directory;
-    model_directory = path.parent_path().string();
+    // A file name alone designates the current directory
+    model_directory = path.has_parent_path() ? path.parent_path().string() : ".";
   }
   else
   {
-- 
2.43.0


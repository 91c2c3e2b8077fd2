From 23b6c07b29fd1d5c48864da110087f1b825b2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 01/40] fix: scale the objective gradient with respect to the
 states

---
 include/mpc/NLMPC/Objective.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..ff710de 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -102,9 +102,10 @@ namespace mpc
             {
                 computeJacobian(Xmat, Umat, c.value, e);
 
-                for (int i = 0; i < Xmat.cols(); i++)
+                // the decision variables are the scaled states
+                for (int i = 0; i < Jx.rows(); i++)
                 {
-                    Xmat.col(i) /= 1.0 / mapping->StateScaling()(i);
+                    Jx.row(i) *= mapping->StateScaling()(i);
                 }
 
                 int counter = 0;
-- 
2.43.0


From 0eff27b21fef9ea06cba77ab6c8058dd48174366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 02/40] fix: perturb the repeated last input in the inequality
 jacobian

---
 include/mpc/NLMPC/Constraints.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..9cbdf2a 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -687,7 +687,13 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     double du = dv * Ua.array()(j);
+                    // the last row of the inputs repeats the one before
+                    bool is_last = (i == ph() - 1);
                     u0(i, j) += du;
+                    if (is_last)
+                    {
+                        u0(ph(), j) += du;
+                    }
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -696,10 +702,18 @@ namespace mpc
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
                     u0(i, j) -= 2 * du;
+                    if (is_last)
+                    {
+                        u0(ph(), j) -= 2 * du;
+                    }
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
                     u0(i, j) += du;
+                    if (is_last)
+                    {
+                        u0(ph(), j) += du;
+                    }
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From c5e3066c9a2aca73760d6ed07afdd79a3f756e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 03/40] fix: size the equality tolerance vector at run time

---
 include/mpc/NLMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..d4e12d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -251,7 +251,7 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-- 
2.43.0


From d9ef636cc3dc89e00ab17193ea12a0312ce9d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 04/40] fix: release the slack variable when hard constraints
 are disabled

---
 include/mpc/NLMPC/NLOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..1a89bd2 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -181,6 +181,11 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = -mpc::inf;
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = mpc::inf;
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From 8a466f19221f11e2d91b0e3acc9f5962678f69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/40] fix: a non positive time limit replaces the one set
 before

---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 1a89bd2..fb6459d 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -136,10 +136,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a non positive value disables the time limit
+            innerOpt->set_maxtime(nl_param->time_limit > 0 ? nl_param->time_limit : 0);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
-- 
2.43.0


From ff9616ddc80d47e9968b8112968668c342d1a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 06/40] fix: constraints that are not a number are not feasible

---
 include/mpc/NLMPC/Constraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 9cbdf2a..1c187d7 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -161,7 +161,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all inequality constraints are satisfied (<= 0)
-                if ((cineq_user.array() > ieq_tolerance).any())
+                if (!(cineq_user.array() <= ieq_tolerance).all())
                 {
                     return false;
                 }
@@ -180,7 +180,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all equality constraints are satisfied (== 0)
-                if (ceq_user.array().abs().maxCoeff() > eq_tolerance)
+                if (!(ceq_user.array().abs() <= eq_tolerance).all())
                 {
                     return false;
                 }
-- 
2.43.0


From ca767a8306f17fae961b5edbaefc073939fa9b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 07/40] fix: size each finite difference step on the perturbed
 element

---
 include/mpc/NLMPC/Constraints.hpp | 6 +++---
 include/mpc/NLMPC/Objective.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 1c187d7..273b7fe 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -659,7 +659,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) += dx;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
@@ -686,7 +686,7 @@ namespace mpc
             {
                 for (size_t j = 0; j < nu(); j++)
                 {
-                    double du = dv * Ua.array()(j);
+                    double du = dv * Ua(i, j);
                     // the last row of the inputs repeats the one before
                     bool is_last = (i == ph() - 1);
                     u0(i, j) += du;
@@ -792,7 +792,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     // Calculate perturbation
-                    double du = dv * Ua(ph() - 1, j);
+                    double du = dv * Ua(i, j);
                     // Forward perturbation
                     u0(i, j) += du;
                     cvec<sizer.eq> f_plus;
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index ff710de..90afafe 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -206,7 +206,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) = x0(ix, j) + dx;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     x0(ix, j) = x0(ix, j) - dx;
@@ -226,7 +226,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     int k = j;
-                    double du = dv * Ua.array()(k);
+                    double du = dv * Ua(i, k);
                     u0(i, k) = u0(i, k) + du;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     u0(i, k) = u0(i, k) - du;
@@ -240,7 +240,7 @@ namespace mpc
             for (size_t j = 0; j < nu(); j++)
             {
                 int k = j;
-                double du = dv * Ua.array()(k);
+                double du = dv * Ua((ph() - 1), k);
                 u0((ph() - 1), k) = u0((ph() - 1), k) + du;
                 u0(ph(), k) = u0(ph(), k) + du;
                 double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
-- 
2.43.0


From 1d13d312497e74d17911a004aeb52ff214b0094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 08/40] fix: use a meaningful finite difference step for the
 slack

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 include/mpc/NLMPC/Objective.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 273b7fe..4246c39 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -720,7 +720,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 90afafe..f6be64e 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -250,7 +250,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From d44f7e4607ab1d7ba42ba780e58a9372a8c67980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 09/40] fix: release the internal solver when initialized again

---
 include/mpc/NLMPC/NLOptimizer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index fb6459d..18e6e8d 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -61,6 +61,8 @@ namespace mpc
          */
         void onInit() override
         {
+            // the component may be initialized more than once
+            delete innerOpt;
             innerOpt = new nlopt::opt(nlopt::LD_SLSQP, ((ph() * nx()) + (nu() * ch()) + 1));
 
             COND_RESIZE_CVEC(sizer,lb,((ph() * nx()) + (nu() * ch()) + 1));
@@ -850,7 +852,7 @@ namespace mpc
             }
         }
 
-        nlopt::opt *innerOpt;
+        nlopt::opt *innerOpt = nullptr;
 
         std::shared_ptr<Objective<sizer>> objFunc;
         std::shared_ptr<Constraints<sizer>> conFunc;
-- 
2.43.0


From ddcea3260d13428354f2e4484b9c64d19d0115d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 10/40] fix: the initial state of the prediction is not scaled

---
 include/mpc/NLMPC/Mapping.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..bc9ea6a 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -202,9 +202,10 @@ namespace mpc
                 Xmat.row(i) = x.middleRows(((i - 1) * nx()), nx()).transpose();
             }
 
+            // the initial state is not a decision variable and thus it is not scaled
             for (int i = 0; i < Xmat.cols(); i++)
             {
-                Xmat.col(i) /= 1.0 / state_scaling(i);
+                Xmat.col(i).tail(ph()) /= 1.0 / state_scaling(i);
             }
 
             // TODO add disturbaces manipulated vars
-- 
2.43.0


From 4fae450d6223fbf3e3409621e880a57733ef1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 11/40] fix: apply the scaling to the state and input bounds

---
 include/mpc/NLMPC/NLOptimizer.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 18e6e8d..7b56f6b 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -102,6 +102,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the bounds depend on the scaling
+            updateBounds();
         }
 
         /**
@@ -633,6 +636,17 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Scaling of a state or input of the optimization vector
+         *
+         * @param i index in the optimization vector
+         * @return scaling
+         */
+        double variableScaling(size_t i)
+        {
+            return i < ph() * nx() ? mapping->StateScaling()(i % nx()) : mapping->InputScaling()((i - ph() * nx()) % nu());
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -642,6 +656,16 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            // the solver works on the scaled variables
+            if (mapping)
+            {
+                for (size_t i = 0; i < lb_vec.size() - 1; i++)
+                {
+                    lb_vec[i] /= variableScaling(i);
+                    ub_vec[i] /= variableScaling(i);
+                }
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
-- 
2.43.0


From d2ab4d6e002f83b4acbf62b5564406bdf51fd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 12/40] fix: scale the initial guess and keep it unaffected by
 failed solves

---
 include/mpc/NLMPC/NLOptimizer.hpp | 35 +++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 7b56f6b..90b7fb3 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -425,6 +425,9 @@ namespace mpc
             std::vector<double> optX0;
             optX0.assign(((ph() * nx()) + (nu() * ch()) + 1),0.0);
 
+            // previous solution (in physical units, since the scaling may change) and slack
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> guess = opt_vector;
+
             if(is_first_iteration || !enable_warm_start)
             {
                 // the whole optimization vector is initialized with the initial state x0
@@ -434,7 +437,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j);
+                        guess[(i * nx()) + j] = x0(j);
                     }
                 }
 
@@ -442,11 +445,17 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j);
+                        guess[(ph() * nx()) + (i * nu()) + j] = u0(j);
                     }
                 }
             }
             
+            // the solver works on the scaled variables
+            for (size_t i = 0; i < (ph() * nx()) + (nu() * ch()); i++)
+            {
+                guess[i] /= variableScaling(i);
+            }
+
             // fill the remaining elements with the previous state starting from
             // the third element of the prediction horizon 
             // (we shift the sequence to the left by one step)
@@ -456,10 +465,10 @@ namespace mpc
                 {
                     if(i == ph() - 1)
                     {
-                        optX0[(i * nx()) + j] = opt_vector[(i * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[(i * nx()) + j];
                     }
                     else{
-                        optX0[(i * nx()) + j] = opt_vector[((i+1) * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[((i+1) * nx()) + j];
                     }
                 }
             }
@@ -470,7 +479,7 @@ namespace mpc
             // convert from the optimized vector to the vectorized manipulated variable
             // using the mapping matrix Iz2u
             cvec<(sizer.ph * sizer.nu)> tmp_mult;
-            tmp_mult = mapping->Iz2u() * opt_vector.middleRows((ph() * nx()), (nu() * ch()));
+            tmp_mult = mapping->Iz2u() * guess.middleRows((ph() * nx()), (nu() * ch()));
 
             // fill the remaining elements with the previous control action starting from
             // the third element of the control horizon
@@ -504,17 +513,17 @@ namespace mpc
 
             // let's start the optimization
             bool optimizationSuccess = false;
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution;
 
             try
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
                 // convert from std vector to eigen vector by copying the data
-                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
+                solution = Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size());
                 optimizationSuccess = true;
-                is_first_iteration = false;
 
                 // check if the solution vector is feasible or not
-                r.is_feasible = conFunc->isFeasible(opt_vector);
+                r.is_feasible = conFunc->isFeasible(solution);
 
                 if (r.is_feasible)
                 {
@@ -581,7 +590,15 @@ namespace mpc
                 mat<(sizer.ph + 1), sizer.nu> Umat;
                 COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
 
-                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
+                mapping->unwrapVector(solution, x0, Xmat, Umat, currentSlack);
+
+                // keep the solution in physical units for the next warm start
+                for (size_t i = 0; i < (ph() * nx()) + (nu() * ch()); i++)
+                {
+                    solution[i] *= variableScaling(i);
+                }
+                opt_vector = solution;
+                is_first_iteration = false;
 
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Optimal predicted state vector\n"
-- 
2.43.0


From facf9dafb7c84a571c790762a393c851b2e62766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 13/40] fix: without warm start the slack starts from zero

---
 include/mpc/NLMPC/NLOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 90b7fb3..80a0b9e 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -509,7 +509,7 @@ namespace mpc
             }
 
             // put the slack variable in the optimization vector
-            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
+            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = (is_first_iteration || !enable_warm_start) ? 0 : currentSlack;
 
             // let's start the optimization
             bool optimizationSuccess = false;
-- 
2.43.0


From 783a4b1098e832153d40dc8a5d27e92ff66d2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 14/40] fix: project the initial guess into the bounds

---
 include/mpc/NLMPC/NLOptimizer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 80a0b9e..284a3cc 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -511,6 +511,14 @@ namespace mpc
             // put the slack variable in the optimization vector
             optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = (is_first_iteration || !enable_warm_start) ? 0 : currentSlack;
 
+            // the solver refuses an initial guess outside the bounds
+            auto lb_solver = innerOpt->get_lower_bounds();
+            auto ub_solver = innerOpt->get_upper_bounds();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                optX0[i] = std::min(std::max(optX0[i], lb_solver[i]), ub_solver[i]);
+            }
+
             // let's start the optimization
             bool optimizationSuccess = false;
             cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution;
-- 
2.43.0


From f0f54a4890896c72f3ec821cb0069ca243754245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 15/40] fix: contain exceptions of any type thrown while
 checking the feasibility

---
 include/mpc/NLMPC/NLOptimizer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 284a3cc..9f969a2 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -568,6 +568,16 @@ namespace mpc
                 optimizationSuccess = false;
                 r.solver_status_msg = "Internal solver error: " + std::string(e.what());
             }
+            catch (...)
+            {
+                Logger::instance().log(Logger::log_type::DETAIL)
+                    << "No optimal solution found: unknown exception"
+                    << std::endl;
+
+                // exceptions of the user functions not deriving from std::exception
+                optimizationSuccess = false;
+                r.solver_status_msg = "Internal solver error: unknown exception";
+            }
 
             if (optimizationSuccess)
             {
-- 
2.43.0


From ed93eca2fc87ae9bb1efd94e623b64bcf30702c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 16/40] fix: setting the constraints again replaces them

---
 include/mpc/NLMPC/NLOptimizer.hpp | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 9f969a2..6382f63 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -241,12 +241,9 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                state_eq_tol.assign(tol.data(), tol.data() + tol.rows() * tol.cols());
+                state_eq_fun = NLOptimizer::nloptEqConFunWrapper;
+                bindEqualities();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding state defined equality constraints"
                     << std::endl;
@@ -278,6 +275,8 @@ namespace mpc
 
             try
             {
+                // replace the constraints already set (if any)
+                innerOpt->remove_inequality_constraints();
                 innerOpt->add_inequality_mconstraint(
                     NLOptimizer::nloptUserIneqConFunWrapper,
                     conFunc.get(),
@@ -316,12 +315,9 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptUserEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                user_eq_tol.assign(tol.data(), tol.data() + tol.rows() * tol.cols());
+                user_eq_fun = NLOptimizer::nloptUserEqConFunWrapper;
+                bindEqualities();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user equality constraints"
                     << std::endl;
@@ -671,6 +667,25 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Bind the equality constraints set so far with the internal
+         * solver replacing the ones already bound
+         */
+        void bindEqualities()
+        {
+            innerOpt->remove_equality_constraints();
+
+            if (state_eq_fun != nullptr)
+            {
+                innerOpt->add_equality_mconstraint(state_eq_fun, conFunc.get(), state_eq_tol);
+            }
+
+            if (user_eq_fun != nullptr)
+            {
+                innerOpt->add_equality_mconstraint(user_eq_fun, conFunc.get(), user_eq_tol);
+            }
+        }
+
         /**
          * @brief Scaling of a state or input of the optimization vector
          *
@@ -922,5 +937,7 @@ namespace mpc
         cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> opt_vector;
         bool is_first_iteration = true;
         bool enable_warm_start = false;
+        std::vector<double> state_eq_tol, user_eq_tol;
+        nlopt::mfunc state_eq_fun = nullptr, user_eq_fun = nullptr;
     };
 } // namespace mpc
-- 
2.43.0


From 1d61781d96673321a2e9990421be0ec2aacafdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 17/40] fix: accept exactly the slices inside the horizon

---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From 236412ada0018f7c501860978bcc364bdb5a9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 18/40] fix: advance the time at each integration step

---
 include/mpc/Integrator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mpc/Integrator.hpp b/include/mpc/Integrator.hpp
index 768bedc..280fd68 100644
--- a/include/mpc/Integrator.hpp
+++ b/include/mpc/Integrator.hpp
@@ -46,6 +46,7 @@ public:
             k4 = m_func(t + h, sol + h * k3);
 
             sol += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
+            t += h;
         }
 
         return sol;
-- 
2.43.0


From 508cf744ff6139c7656e2f47b2f411bbdbf4cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 19/40] fix: the discretized feedthrough matrix has the size of
 the given one

---
 include/mpc/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Utils.hpp b/include/mpc/Utils.hpp
index bf8541c..cf7c7bb 100644
--- a/include/mpc/Utils.hpp
+++ b/include/mpc/Utils.hpp
@@ -109,7 +109,7 @@ template <size_t nx, size_t nu, size_t ny>
 void discretization(
     const mat<nx, nx>& A, const mat<nx, nu>& B,
     const mat<ny, nx>& C, const mat<ny, nu>& D, const double& Ts,
-    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<nx, nu>& Dd)
+    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<ny, nu>& Dd)
 {
     // TODO this discretization works only with delay-free systems
     discretization<nx,nu>(A, B, Ts, Ad, Bd);
-- 
2.43.0


From 539695c86ab97f914f99af5f4e85f744e045b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 20/40] fix: operands order of the dimensions difference

---
 include/mpc/Dim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Dim.hpp b/include/mpc/Dim.hpp
index 52f5a26..91d64bc 100644
--- a/include/mpc/Dim.hpp
+++ b/include/mpc/Dim.hpp
@@ -96,7 +96,7 @@ namespace mpc
 
     constexpr Size operator-(const int &v, const Size &w)
     {
-        return Size(make_dimension(w.value - v, Size::is_static(w.value, v)));
+        return Size(make_dimension(v - w.value, Size::is_static(w.value, v)));
     }
 
     constexpr Size operator*(const int &v, const Size &w)
-- 
2.43.0


From 219ace4fd55a3b6810a03294e05ae9cfa4a17d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 21/40] fix: standard deviation of the solution times

---
 include/mpc/Profiler.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..58beba0 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -213,6 +213,7 @@ namespace mpc
 
             if (stats.numberOfSolutions > 0)
             {
+                auto averageSolutionTime_old = stats.averageSolutionTime;
                 stats.averageSolutionTime = (1.0 / stats.numberOfSolutions) * (time + (stats.numberOfSolutions - 1) * stats.averageSolutionTime);
 
                 if(stats.numberOfSolutions == 1)
@@ -221,9 +222,10 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    // Welford's recurrence of the sum of squared residuals
+                    double residual = (time - averageSolutionTime_old).count() * (time - stats.averageSolutionTime).count();
+                    double squares_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt((squares_old + residual) / stats.numberOfSolutions);
                 }
             }
         }
-- 
2.43.0


From 7d01bf9bfde69269f8118c6f209c2c247a2ac94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 22/40] fix: rounding never makes the deviation of equal times
 undefined

---
 include/mpc/Profiler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index 58beba0..e174675 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -225,7 +225,7 @@ namespace mpc
                     // Welford's recurrence of the sum of squared residuals
                     double residual = (time - averageSolutionTime_old).count() * (time - stats.averageSolutionTime).count();
                     double squares_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((squares_old + residual) / stats.numberOfSolutions);
+                    stats.standardDeviation = sqrt(std::max(0.0, squares_old + residual) / stats.numberOfSolutions);
                 }
             }
         }
-- 
2.43.0


From b87d7ed82b216a8df3c4eb52f4c6f6e6dbd701db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 23/40] fix: last column of the input bounds beyond the control
 horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..fa1c587 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1);
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1);
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 944ce401bfdd76eff302c0f494886a9eb52df4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 24/40] fix: single input bounds continue beyond the control
 horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index fa1c587..9fb5e52 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -473,6 +473,16 @@ namespace mpc
             minU.block(0, index, nu(), 1) = UMin;
             maxU.block(0, index, nu(), 1) = UMax;
 
+            // the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
+            if (index + 1 == ch())
+            {
+                for (size_t i = ch(); i < ph(); i++)
+                {
+                    minU.col(i) = UMin;
+                    maxU.col(i) = UMax;
+                }
+            }
+
             return buildTimeInvariantTems();
         }
 
-- 
2.43.0


From 45ad0d71b58faabd0fd1fa70628dcf9f0782c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 25/40] fix: inputs are held from the end of the control
 horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 9fb5e52..d1f06ca 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -791,8 +791,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From 95dc2d71e00e3ac5d6e45d4b60d7daff5c2245de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 26/40] fix: input bounds restrict the input of their own step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index d1f06ca..4e28958 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -744,15 +744,16 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // the extended state at step i holds the input applied at step i-1
+                if (i == 0)
                 {
-                    tmpMinU = minU.col(i - 1);
-                    tmpMaxU = maxU.col(i - 1);
+                    tmpMinU = minU.col(0);
+                    tmpMaxU = maxU.col(0);
                 }
                 else
                 {
-                    tmpMinU = minU.col(i);
-                    tmpMaxU = maxU.col(i);
+                    tmpMinU = minU.col(i - 1);
+                    tmpMaxU = maxU.col(i - 1);
                 }
                 eMinX.middleRows(i * (nu() + nx()), (nu() + nx())) << minX.col(i), tmpMinU;
                 eMaxX.middleRows(i * (nu() + nx()), (nu() + nx())) << maxX.col(i), tmpMaxU;
-- 
2.43.0


From 62ef7674fc98b09dd1b4c53bebfb7263755f797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 27/40] fix: scalar constraint pairs state and input of the
 same step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 4e28958..9c56748 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -326,10 +326,7 @@ namespace mpc
                 sMax(0) = max;
             }
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
+            setScalarMultiplier(X, U);
 
             return buildTimeInvariantTems();
         }
@@ -356,10 +353,7 @@ namespace mpc
             sMax.segment(1, ph()) = MaxMat;
             sMax(0) = MaxMat(0);
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
+            setScalarMultiplier(X, U);
 
             return buildTimeInvariantTems();
         }
@@ -643,6 +637,25 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Fill the multipliers of the scalar constraint, the state at step i is paired
+         * with the input at step i, which is stored in the extended state of the step i+1
+         *
+         * @param X the constant term multiplied to the state
+         * @param U the constant term multiplied to the input
+         */
+        void setScalarMultiplier(const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
+        {
+            sMultiplier.setZero();
+
+            for (size_t i = 0; i < ph() + 1; i++)
+            {
+                size_t inputStep = (i < ph()) ? i + 1 : i;
+                sMultiplier.block(i, i * (nx() + nu()), 1, nx()) = X.transpose();
+                sMultiplier.block(i, inputStep * (nx() + nu()) + nx(), 1, nu()) = U.transpose();
+            }
+        }
+
         /**
          * @brief Build the time invariant optimal control problem terms
          *
-- 
2.43.0


From abb8629f60c55cf6af9274c75b6994bad72fb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 28/40] fix: input increments track the reference of their own
 step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 9c56748..7152749 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -569,14 +569,12 @@ namespace mpc
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -593,6 +591,8 @@ namespace mpc
                 // the command increments stop at the last prediction horizon step
                 if (i < ph())
                 {
+                    deltaURef_ex = deltaURef.col(i);
+
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
                         nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
-- 
2.43.0


From 87df01470c2176c503007c26dc54397b02fc26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 29/40] fix: exogenous inputs slices refer to the prediction
 horizon

---
 include/mpc/LMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..e25cab9 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -567,8 +567,8 @@ namespace mpc
             }
             else
             {
-                // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                // Replicate on segment of the prediction horizon
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From 5748491fedb08cb8dfbb17d0b63c35dc525f6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 30/40] fix: box constraints on a single step of the linear
 controller

---
 include/mpc/LMPC.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index e25cab9..1d3076a 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -336,7 +336,15 @@ namespace mpc
             }
 
             Logger::instance().log(Logger::log_type::DETAIL) << "Setting constraints for the step " << index << std::endl;
-            return builder.setConstraints(index, XMin, UMin, YMin, XMax, UMax, YMax);
+            bool ret = builder.setStateBounds(index, XMin, XMax) && builder.setOutputBounds(index, YMin, YMax);
+
+            // beyond the control horizon the input is held and so are its bounds
+            if (index < ch())
+            {
+                ret = builder.setInputBounds(index, UMin, UMax) && ret;
+            }
+
+            return ret;
         }
 
         /**
-- 
2.43.0


From 72a54e79c0d8620bd960f97079a2a5cb928f6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 31/40] fix: lifetime of the linear solver objects

---
 include/mpc/LMPC.hpp            | 5 ++++-
 include/mpc/LMPC/LOptimizer.hpp | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 1d3076a..68d4147 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,10 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            delete optPtr;
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..9355356 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -483,6 +483,7 @@ namespace mpc
         void clearData()
         {
             osqp_cleanup(work);
+            work = nullptr;
 
             if (data)
             {
@@ -495,11 +496,13 @@ namespace mpc
                     csc_spfree(data->P);
                 }
                 c_free(data);
+                data = nullptr;
             }
 
             if (settings)
             {
                 c_free(settings);
+                settings = nullptr;
             }
         }
 
@@ -515,9 +518,9 @@ namespace mpc
             data->A = nullptr;
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
-- 
2.43.0


From fb966fb624ce985a8df094c50433d8fe0a3f9445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 32/40] fix: failed linear solves are reported and leave no
 trace

---
 include/mpc/LMPC/LOptimizer.hpp | 51 ++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 9355356..16f1e52 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -9,6 +9,9 @@
 
 #include <osqp/osqp.h>
 
+#include <algorithm>
+#include <cmath>
+
 namespace mpc
 {
     /**
@@ -259,13 +262,14 @@ namespace mpc
 
             // setup workspace
             exitflag = osqp_setup(&work, data, settings);
-            if (exitflag > 0)
+            bool ready = exitflag == 0;
+            bool solved = false;
+            if (!ready)
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
             }
-
             // warm starting the solver
-            if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+            else if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
             {
                 exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
                 if (exitflag > 0)
@@ -281,15 +285,19 @@ namespace mpc
             }
 
             // solve problem
-            exitflag = osqp_solve(work);
-            if (exitflag > 0)
+            if (ready)
             {
-                Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                exitflag = osqp_solve(work);
+                solved = exitflag == 0;
+                if (!solved)
+                {
+                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                }
             }
 
             // if the solution is valid update the solution otherwise
-            // keep the last feasible solution
-            if (work->solution->x != NULL)
+            // keep the last feasible solution (infeasible problems have no finite solution)
+            if (solved && isSolutionFinite(numVars, numConstraints))
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -351,8 +359,12 @@ namespace mpc
                 // and we set the return code to -1
                 r.cost = mpc::inf;
                 r.cmd = result.cmd;
-                r.solver_status = -1;
-                r.status = ResultStatus::ERROR;
+                r.solver_status = solved ? (int)work->info->status_val : -1;
+                r.status = solved ? convertToResultStatus(r.solver_status) : ResultStatus::ERROR;
+                if (r.status == ResultStatus::SUCCESS)
+                {
+                    r.status = ResultStatus::ERROR;
+                }
 
                 // in case of invalid solution we ouput all the sequences to zero
                 sequence.state.setZero();
@@ -372,6 +384,25 @@ namespace mpc
         std::vector<double> optimal_prev_x, optimal_prev_y;
 
     private:
+        /**
+         * @brief Check if the solver delivered a primal and dual solution
+         *
+         * @param numVars number of the variables
+         * @param numConstraints number of the constraints
+         * @return true
+         * @return false
+         */
+        bool isSolutionFinite(int numVars, int numConstraints)
+        {
+            if (work->solution == nullptr || work->solution->x == nullptr || work->solution->y == nullptr)
+            {
+                return false;
+            }
+
+            return std::all_of(work->solution->x, work->solution->x + numVars, [](c_float v) { return std::isfinite(v); }) &&
+                   std::all_of(work->solution->y, work->solution->y + numConstraints, [](c_float v) { return std::isfinite(v); });
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0


From c29f23f3be9fc74e5533a239b6b43708011b46e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 33/40] fix: status of inaccurate infeasibility and time
 limited linear solves

---
 include/mpc/LMPC/LOptimizer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 16f1e52..27193dd 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -429,13 +429,13 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-                return ResultStatus::UNKNOWN;
+                return ResultStatus::MAX_ITERATION;
             case OSQP_NON_CVX:
                 return ResultStatus::ERROR;
             case OSQP_UNSOLVED:
-- 
2.43.0


From 66cc745d592e11cfd0f3113e8ff476fe401ec43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 34/40] fix: input bounds as matrices for control horizons
 shorter by more than a step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 7152749..0485de0 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -399,8 +399,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1);
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1);
+                minU.block(0, ch(), nu(), ph() - ch()).colwise() = cvec<sizer.nu>(UMinMat.col(ch() - 1));
+                maxU.block(0, ch(), nu(), ph() - ch()).colwise() = cvec<sizer.nu>(UMaxMat.col(ch() - 1));
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 4fdb7efe5d3d983778cb611f5f4e20af5f00e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 35/40] fix: exceptions of the output function after the solve
 are contained

---
 include/mpc/NLMPC/NLOptimizer.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 6382f63..f2abd91 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -519,6 +519,17 @@ namespace mpc
             bool optimizationSuccess = false;
             cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution;
 
+            mat<(sizer.ph + 1), sizer.nx> Xmat;
+            COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
+
+            mat<(sizer.ph + 1), sizer.nu> Umat;
+            COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
+
+            mat<(sizer.ph + 1), sizer.ny> Ymat;
+            COND_RESIZE_MAT(sizer,Ymat,(ph() + 1), ny());
+
+            double solutionSlack = 0;
+
             try
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
@@ -541,6 +552,10 @@ namespace mpc
                         << "Optimal solution found but not feasible"
                         << std::endl;
                 }
+
+                // the output function of the user is evaluated here since it may fail
+                mapping->unwrapVector(solution, x0, Xmat, Umat, solutionSlack);
+                Ymat = model->getOutput(Xmat, Umat).block(0, 0, ph()+1, ny());
             }
             catch (nlopt::roundoff_limited &e)
             {
@@ -598,13 +613,7 @@ namespace mpc
                     << r.cost
                     << std::endl;
 
-                mat<(sizer.ph + 1), sizer.nx> Xmat;
-                COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
-
-                mat<(sizer.ph + 1), sizer.nu> Umat;
-                COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
-
-                mapping->unwrapVector(solution, x0, Xmat, Umat, currentSlack);
+                currentSlack = solutionSlack;
 
                 // keep the solution in physical units for the next warm start
                 for (size_t i = 0; i < (ph() * nx()) + (nu() * ch()); i++)
@@ -627,11 +636,12 @@ namespace mpc
 
                 sequence.state = Xmat.block(0, 0, ph()+1, nx());
                 sequence.input = Umat.block(0, 0, ph()+1, nu());
-                sequence.output = model->getOutput(Xmat, Umat).block(0, 0, ph()+1, ny());
+                sequence.output = Ymat;
             }
             else
             {
                 r.cost = mpc::inf;
+                r.is_feasible = false;
                 r.cmd = result.cmd;
                 r.solver_status = -1;
                 // set the result status to error
-- 
2.43.0


From 04418ef081529400c638419d4878652045f29b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 36/40] fix: references as matrices in the python module

---
 python/pybind_export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 308cf90..c2fa1d2 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -119,7 +119,7 @@ void expose_LMPC(py::module &m)
         .def("setScalarConstraint", py::overload_cast<const double, const double, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setScalarConstraint))
         .def("setExogenousInputs", py::overload_cast<const Eigen::MatrixXd &>(&LMPCType::setExogenousInputs))
         .def("setExogenousInputs", py::overload_cast<const Eigen::VectorXd &, const mpc::HorizonSlice&>(&LMPCType::setExogenousInputs))
-        .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences))
+        .def("setReferences", py::overload_cast<const Eigen::MatrixXd, const Eigen::MatrixXd, const Eigen::MatrixXd>(&LMPCType::setReferences))
         .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences));
 }
 
-- 
2.43.0


From 9399d9a22e00cd9d0996479cd25daa0419837c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 37/40] fix: feasibility of the result in the python module

---
 python/pybind_export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index c2fa1d2..e5327ee 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -144,6 +144,7 @@ PYBIND11_MODULE(pympcxx, m)
 
     py::class_<ResulType>(m, "Result")
         .def_readonly("solver_status", &ResulType::solver_status)
+        .def_readonly("is_feasible", &ResulType::is_feasible)
         .def_readonly("solver_status_msg", &ResulType::solver_status_msg)
         .def_readonly("cost", &ResulType::cost)
         .def_readonly("cmd", &ResulType::cmd)
-- 
2.43.0


From fd34eac80ee27ed84a24e6ef4cc8c3d6be58e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 38/40] fix: optimal sequence in the python module

---
 python/pybind_export.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index e5327ee..387af5d 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -150,6 +150,14 @@ PYBIND11_MODULE(pympcxx, m)
         .def_readonly("cmd", &ResulType::cmd)
         .def_readonly("status", &ResulType::status);
 
+    // export the optimal sequence struct to python
+    using SequenceType = mpc::OptSequence<Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic>;
+
+    py::class_<SequenceType>(m, "OptSequence")
+        .def_readonly("state", &SequenceType::state)
+        .def_readonly("output", &SequenceType::output)
+        .def_readonly("input", &SequenceType::input);
+
     // export the solution stats struct to python
     using StatsType = mpc::SolutionStats;
 
-- 
2.43.0


From dbb3f5ab82f4dac6cbae0d6a33b2fb2ddac25bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 39/40] fix: optimizer parameters in the python module

---
 python/pybind_export.cpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 387af5d..6cb7a7a 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -62,7 +62,8 @@ void expose_NLMPC(py::module &m)
         .def("setDiscretizationSamplingTime", &NLMPCType::setDiscretizationSamplingTime)
         .def("setInputScale", &NLMPCType::setInputScale)
         .def("setStateScale", &NLMPCType::setStateScale)
-        .def("setOptimizerParameters", &NLMPCType::setOptimizerParameters)
+        .def("setOptimizerParameters", [](NLMPCType &self, const mpc::NLParameters &param)
+             { self.setOptimizerParameters(param); })
         .def("setLoggerLevel", &NLMPCType::setLoggerLevel)
         .def("setLoggerPrefix", &NLMPCType::setLoggerPrefix)
         .def("optimize", &NLMPCType::optimize)
@@ -93,7 +94,8 @@ void expose_LMPC(py::module &m)
     py::class_<LMPCType>(m, name.c_str())
         .def(py::init<const int &, const int &, const int &, const int &, const int &, const int &>())
         // methods from the IMPC class
-        .def("setOptimizerParameters", &LMPCType::setOptimizerParameters)
+        .def("setOptimizerParameters", [](LMPCType &self, const mpc::LParameters &param)
+             { self.setOptimizerParameters(param); })
         .def("setLoggerLevel", &LMPCType::setLoggerLevel)
         .def("setLoggerPrefix", &LMPCType::setLoggerPrefix)
         .def("optimize", &LMPCType::optimize)
@@ -158,6 +160,33 @@ PYBIND11_MODULE(pympcxx, m)
         .def_readonly("output", &SequenceType::output)
         .def_readonly("input", &SequenceType::input);
 
+    // export the optimizer parameters structs to python
+    py::class_<mpc::NLParameters>(m, "NLParameters")
+        .def(py::init<>())
+        .def_readwrite("maximum_iteration", &mpc::NLParameters::maximum_iteration)
+        .def_readwrite("time_limit", &mpc::NLParameters::time_limit)
+        .def_readwrite("enable_warm_start", &mpc::NLParameters::enable_warm_start)
+        .def_readwrite("relative_ftol", &mpc::NLParameters::relative_ftol)
+        .def_readwrite("relative_xtol", &mpc::NLParameters::relative_xtol)
+        .def_readwrite("absolute_ftol", &mpc::NLParameters::absolute_ftol)
+        .def_readwrite("absolute_xtol", &mpc::NLParameters::absolute_xtol)
+        .def_readwrite("hard_constraints", &mpc::NLParameters::hard_constraints);
+
+    py::class_<mpc::LParameters>(m, "LParameters")
+        .def(py::init<>())
+        .def_readwrite("maximum_iteration", &mpc::LParameters::maximum_iteration)
+        .def_readwrite("time_limit", &mpc::LParameters::time_limit)
+        .def_readwrite("enable_warm_start", &mpc::LParameters::enable_warm_start)
+        .def_readwrite("alpha", &mpc::LParameters::alpha)
+        .def_readwrite("rho", &mpc::LParameters::rho)
+        .def_readwrite("eps_rel", &mpc::LParameters::eps_rel)
+        .def_readwrite("eps_abs", &mpc::LParameters::eps_abs)
+        .def_readwrite("eps_prim_inf", &mpc::LParameters::eps_prim_inf)
+        .def_readwrite("eps_dual_inf", &mpc::LParameters::eps_dual_inf)
+        .def_readwrite("verbose", &mpc::LParameters::verbose)
+        .def_readwrite("adaptive_rho", &mpc::LParameters::adaptive_rho)
+        .def_readwrite("polish", &mpc::LParameters::polish);
+
     // export the solution stats struct to python
     using StatsType = mpc::SolutionStats;
 
-- 
2.43.0


From 7f6f8157232ab02129f43e69a7d2ba9bfae1d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:54 +0000
Subject: [PATCH 40/40] fix: forbid copying the non-linear controller, copies
 shared and released one optimizer

---
 include/mpc/NLMPC.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index d4e12d4..9c26dfd 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -65,6 +65,10 @@ namespace mpc
             setDimension(nx, nu, 0, ny, ph, ch, ineq, eq);
         }
 
+        // the controller owns its optimizer, as the linear one it cannot be copied
+        NLMPC(const NLMPC &) = delete;
+        NLMPC &operator=(const NLMPC &) = delete;
+
         ~NLMPC()
         {
             delete optPtr;
-- 
2.43.0


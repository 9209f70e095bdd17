From ba3bc25ab4a9b94dfc8accb77b484843c6a0c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 01/35] fix: serve all second-order gains from the mutable
 planner parameter getter

PlannerSetting::get(PlannerDoubleParam) returned a writable reference for
seven of the thirteen *_Second double parameters only; writing one of the
remaining six (for instance through the Python setter) threw.
---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index dd7386a..7baef68 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -585,6 +585,12 @@ namespace momentumopt {
       case PlannerDoubleParam_WeightEndEffTracking_Second : { return w_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainEndEffTracking_Second : { return p_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainComTracking_Second : { return p_com_tracking_second_; }
+      case PlannerDoubleParam_WeightJointReg_Second : { return w_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainEndEffTracking_Second : { return d_endeff_tracking_second_; }
+      case PlannerDoubleParam_PGainBaseOrientationTracking_Second : { return p_orient_tracking_second_; }
+      case PlannerDoubleParam_DGainBaseOrientationTracking_Second : { return d_orient_tracking_second_; }
+      case PlannerDoubleParam_PGainJointRegularization_Second : { return p_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainJointRegularization_Second : { return d_joint_regularization_second_; }
 
       // Not handled parameters
       default: { throw std::runtime_error("PlannerSetting::set PlannerDoubleParam invalid"); break; }
-- 
2.43.0


From f4f5664f8122d178328d9f89aa648e59ccc56726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 02/35] fix: derive the dynamics results file name when loading
 planner settings

The assignment was commented out, so with store_data enabled the dynamics
optimizer opened an empty file name and the results were silently lost.
---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index 7baef68..8a6b65c 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -16,7 +16,7 @@ namespace momentumopt {
   void PlannerSetting::initialize(const std::string& cfg_file, const std::string& planner_vars_yaml)
   {
     cfg_file_ = cfg_file;
-    // save_dynamics_file_ = cfg_file.substr(0, cfg_file.size()-5) + "_dyn_results.yaml";
+    save_dynamics_file_ = cfg_file.substr(0, cfg_file.size()-5) + "_dyn_results.yaml";
     save_kinematics_file_ = cfg_file.substr(0, cfg_file.size()-5) + "_kin_results.yaml";
     default_solver_setting_file_ = CFG_SRC_PATH + std::string("default_solver_setting.yaml");
 
-- 
2.43.0


From 4dea44940a0c30a904ff179978e3f15d77237330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 03/35] fix: setEffTorque writes the end-effector torque, not
 its position

---
 momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
index 9cad0c6..8990be2 100644
--- a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
+++ b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
@@ -26,7 +26,7 @@ static void setEffForce(DynamicsState& self, const int effId, const Eigen::Vecto
   self.endeffectorForce(effId) = force;
 }
 static void setEffTorque(DynamicsState& self, const int effId, const Eigen::Vector3d& torque){
-  self.endeffectorPosition(effId) = torque;
+  self.endeffectorTorque(effId) = torque;
 }
 static void setEffActivation(DynamicsState& self, const int effId, const bool activation){
   self.endeffectorActivation(effId) = activation;
-- 
2.43.0


From afda79a0567d2adcf660a33d549391c070ca737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 04/35] fix: const slack and multiplier views of
 OptimizationVector address the same segments as the mutable ones

---
 solver/include/solver/interface/Cone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/interface/Cone.hpp b/solver/include/solver/interface/Cone.hpp
index 04ab1ba..18768e4 100644
--- a/solver/include/solver/interface/Cone.hpp
+++ b/solver/include/solver/interface/Cone.hpp
@@ -350,8 +350,8 @@ namespace solver {
 
 	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
 	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
 	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
-- 
2.43.0


From c4733ca5bf54046b2c78b6f6aeb9bc98e4474ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 05/35] fix: keep the constant of linear constraints without
 variables in the conic problem

---
 solver/src/solver/interface/ConicProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 9919f92..e3d633a 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -130,8 +130,8 @@ namespace solver {
     	    this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_id,
 			                        leqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            leqcons_[row_id].getCoeff(var_id)), true);
-	    this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
 	  }
+	  this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
     }
 
     // Linear inequality constraints due to integer variables
@@ -149,8 +149,8 @@ namespace solver {
 		this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_offset+row_id,
 			                        lineqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            lineqcons_[row_id].getCoeff(var_id)));
-	    this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
 	  }
+	  this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
     }
     row_start += lineqcons_.size();
 
-- 
2.43.0


From 6776de0109b25c89fac7434c930fc54d17c80e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 06/35] fix: setting the objective again drops the slack
 variables of the previous objective

---
 solver/src/solver/interface/ConicProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index e3d633a..513f2d6 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -93,6 +93,7 @@ namespace solver {
     objective_.qexpr() = qexpr.qexpr();
     objective_.coeffs() = qexpr.coeffs();
     objective_.lexpr() = qexpr.lexpr() + lexpr;
+    objective_.extraVars().clear();
     for (int i=0; i<(int)qexpr.coeffs().size(); i++)
       objective_.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
   }
-- 
2.43.0


From 15a2ef3d508c445c659f9dc1947ba626e6f6fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 07/35] fix: reject quadratic and cone constraints of invalid
 sense before changing the problem

---
 solver/src/solver/interface/ConicProblem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 513f2d6..0771fea 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -58,6 +58,7 @@ namespace solver {
   // Disciplined Convex Quadratic Constraint: Sum coeffs[i]* (DCP.qexpr[i])^2 + (DCP.lexpr - lexpr) [< =] 0.0
   void ConicProblem::addQuaConstr(const DCPQuadExpr& qexpr, const std::string sense, const LinExpr& lexpr, const QuadConstrApprox& qapprox)
   {
+    if (sense != "<") { throw std::runtime_error("Invalid sense on Quadratic Constraint"); }
     DCPQuadExpr qstg = qexpr;
     qstg.lexpr() = qexpr.lexpr() - lexpr;
     switch (qapprox) {
@@ -69,20 +70,19 @@ namespace solver {
 	  qstg.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
     if (qapprox == QuadConstrApprox::SoftConstraint) { qstg.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5)); }
 
-    if (sense == "<") { qineqcons_.push_back(qstg); }
-    else { throw std::runtime_error("Invalid sense on Quadratic Constraint"); }
+    qineqcons_.push_back(qstg);
   }
 
   // Second-Order Cone Constraint: SQRT( Sum (DCP.qexpr[i])^2 ) + (DCP.lexpr - lexpr) [< =] 0.0
   void ConicProblem::addSocConstr(const DCPQuadExpr& qexpr, const std::string sense, const LinExpr& lexpr)
   {
+    if (sense != "<") { throw std::runtime_error("Invalid sense on Second-Order Cone Constraint"); }
     DCPQuadExpr qstg = qexpr;
     qstg.trustRegion() = false;
     qstg.lexpr() = qexpr.lexpr() - lexpr;
     qstg.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
 
-    if (sense == "<") { soccons_.push_back(qstg); }
-    else { throw std::runtime_error("Invalid sense on Second-Order Cone Constraint"); }
+    soccons_.push_back(qstg);
   }
 
 
-- 
2.43.0


From 2fd0e9c60e017d8e9418aebda478dfff65eebd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 08/35] fix: interior point solver honours the iteration limit
 set for the current solve

---
 solver/src/solver/optimizer/IPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 0ef1bb2..88db4f6 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -298,7 +298,7 @@ namespace solver {
     if (initializeVariables() == ExitCode::Indeterminate)
       return ExitCode::Indeterminate;
 
-    for (this->getInfo().get(SolverIntParam_NumIter)=0; this->getInfo().get(SolverIntParam_NumIter)<=this->getSetting().get(SolverIntParam_SolverMaxIters); this->getInfo().get(SolverIntParam_NumIter)++)
+    for (this->getInfo().get(SolverIntParam_NumIter)=0; this->getInfo().get(SolverIntParam_NumIter)<=this->getSetting().get(SolverIntParam_MaxIters); this->getInfo().get(SolverIntParam_NumIter)++)
     {
       computeResiduals();
       updateStatistics();
@@ -335,7 +335,7 @@ namespace solver {
           break;
         }
         // Reached maxNumIters
-        else if (this->getInfo().get(SolverIntParam_NumIter)==this->getSetting().get(SolverIntParam_SolverMaxIters))
+        else if (this->getInfo().get(SolverIntParam_NumIter)==this->getSetting().get(SolverIntParam_MaxIters))
         {
           if (!this->getInfo().isBetterThan(this->getBestInfo())) { restoreBestIterate(); }
           exitcode_ = convergenceCheck(PrecisionConvergence::Reduced);
-- 
2.43.0


From 2b8fd98968ac1e939df0cc5023872ccc6a80f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 09/35] fix: undo the equilibration of the solution on every
 exit of the interior point loop

---
 solver/src/solver/optimizer/IPSolver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 88db4f6..9dca555 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -360,14 +360,16 @@ namespace solver {
         exitcode_ = convergenceCheck(PrecisionConvergence::Reduced);
         if (exitcode_ == ExitCode::NotConverged) {
           this->getPrinter().display(Msg::NumericalProblem, this->getInfo());
-          return ExitCode::PrSlacksLeaveCone;
-        } else { break; }
+          exitcode_ = ExitCode::PrSlacksLeaveCone;
+        }
+        break;
       }
 
       this->getLinSolver().updateMatrix();
       if (this->getLinSolver().numericFactorization()!=FactStatus::Optimal) {
         this->getPrinter().display(Msg::MatrixFactorization, this->getInfo());
-        return ExitCode::Indeterminate;
+        exitcode_ = ExitCode::Indeterminate;
+        break;
       }
       this->getInfo().get(SolverIntParam_NumRefsLinSolve) = this->getLinSolver().solve(rhs1_, dopt2_);
 
-- 
2.43.0


From 1b982b5cf85c85850af55134804d39f768e1f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 10/35] fix: infeasible branch-and-bound nodes are discarded
 instead of evaluated at a meaningless point

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 2 --
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 9080245..a898240 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -112,8 +112,6 @@ namespace solver {
     opt_status_ = this->getSolver().optimize();
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index df1ecfa..3c8a24e 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -109,8 +109,6 @@ namespace solver {
     opt_status_ = this->getProblem().optimize();
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
-- 
2.43.0


From 31a80d7ddc785af57fd919f0fbad1f92f5b258c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 11/35] fix: branch and bound compares nodes by their true
 objective, not by the equilibrated one

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 6 +++---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index a898240..c26fb83 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -114,7 +114,7 @@ namespace solver {
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -124,7 +124,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -133,7 +133,7 @@ namespace solver {
         opt_status_ = this->getSolver().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 3c8a24e..572a4b0 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -111,7 +111,7 @@ namespace solver {
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -121,7 +121,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -130,7 +130,7 @@ namespace solver {
         opt_status_ = this->getProblem().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
-- 
2.43.0


From f600f9edd692e191b8c81c0218cdfc62983ba9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 12/35] fix: branch and bound keeps the incumbent found at the
 root node

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 1 -
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index c26fb83..b077a1f 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -197,7 +197,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 572a4b0..1981b64 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -194,7 +194,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
-- 
2.43.0


From d4d4c4be00d5bf92c94c103853d74a0e9e311bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 13/35] fix: finite-difference dynamics derivatives of the
 centroidal LQR point from the nominal to the perturbed state

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index a570e15..48a7cfd 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -229,14 +229,14 @@ class CentroidalLqr:
         for i in range(self.nx): 
             dx[i] = self.eps 
             fp = self.integrate_step(t, self.increment_x(x,dx), u)
-            fx[:,i] = self.diff_x(fp, f0)
+            fx[:,i] = self.diff_x(f0, fp)
             dx[i] = 0. 
         fx /= self.eps 
         du = np.zeros(self.m)
         for i in range(self.m): 
             du[i] = self.eps 
             fp = self.integrate_step(t, x, u+du)
-            fu[:,i] = self.diff_x(fp, f0)
+            fu[:,i] = self.diff_x(f0, fp)
             du[i] = 0.
         fu /= self.eps 
         return fx, fu  
-- 
2.43.0


From 0a644168888d8805245150d8927781d8a7fe0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 14/35] fix: restore the perturbation while computing the cost
 Hessian of the centroidal LQR

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index 48a7cfd..b463ef3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -292,7 +292,7 @@ class CentroidalLqr:
                 spp = self.cost(t, self.increment_x(x,dx1), u)
                 dx1[col] -= 2*self.eps 
                 spm = self.cost(t, self.increment_x(x,dx1), u)
-                dx1[col] -= self.eps 
+                dx1[col] += self.eps 
                 # 
                 dx2[col] += self.eps
                 smp = self.cost(t, self.increment_x(x,dx2), u)
-- 
2.43.0


From 9cca18fb1352c4082873d99228567357cd6273a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 15/35] fix: lever arm matrix of the end-effector LQR is skew
 symmetric

---
 .../python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py b/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py
index 7413b4c..d1c1238 100644
--- a/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py
+++ b/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py
@@ -50,7 +50,7 @@ class end_effector_lqr:
 
         r_cross_mat = [[0, -(end_eff_abs_pos[2] - com_pos[2]), (end_eff_abs_pos[1] - com_pos[1])],
                        [(end_eff_abs_pos[2] - com_pos[2]), 0, -(end_eff_abs_pos[0] - com_pos[0])],
-                       [-(end_eff_abs_pos[1] - com_pos[1]), -(end_eff_abs_pos[0] - com_pos[0]), 0]]
+                       [-(end_eff_abs_pos[1] - com_pos[1]), (end_eff_abs_pos[0] - com_pos[0]), 0]]
 
         return r_cross_mat
 
-- 
2.43.0


From 446ff8f7fe64496b89d30414e4888e4ef322a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 16/35] fix: end-effector LQR rotates the inertia into the
 world frame

---
 .../python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py b/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py
index d1c1238..fa8ba0d 100644
--- a/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py
+++ b/momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py
@@ -70,7 +70,7 @@ class end_effector_lqr:
                     [np.zeros((3,3)), np.zeros((3,3)), np.zeros((3,4)), np.zeros((3,3))]])
 
         rot_t = np.reshape(Rot.from_quat(x_t[:, [6,7,8,9]]).as_dcm(), (3,3))
-        inertia = np.matmul(np.matmul(np.transpose(rot_t),self.inertia_com_frame), rot_t)
+        inertia = np.matmul(np.matmul(rot_t,self.inertia_com_frame), np.transpose(rot_t))
         inv_inertia = inv(np.matrix(inertia))
 
         r_cross_inv_inertia_fl = np.matmul(inv_inertia, self.compute_r_cross(self.end_eff_abs_pos[t][0:3], self.com_pos[t]))
-- 
2.43.0


From 275a62a310c0a8534246743075d0b07e15c14d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 17/35] fix: derivative of the quaternion rate with respect to
 the angular velocity

---
 .../python/momentumopt/kinoptpy/lqr_gain_computation.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py
index bb4f8a6..2efe035 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py
@@ -141,9 +141,9 @@ class centroidal_lqr:
                          [-x_t[:, 10], -x_t[:, 11], -x_t[:,12], 0.]]),float)
 
 
-        pd_omega = np.array([[x_t[:, 9],-x_t[:, 8], -x_t[:, 7]],
+        pd_omega = np.array([[x_t[:, 9],-x_t[:, 8], x_t[:, 7]],
                             [x_t[:, 8],x_t[:, 9], -x_t[:, 6]],
-                            [-x_t[:, 7],-x_t[:, 6], x_t[:, 9]],
+                            [-x_t[:, 7],x_t[:, 6], x_t[:, 9]],
                             [-x_t[:, 6],-x_t[:, 7], -x_t[:, 8]]])
 
         pd_omega = np.reshape(pd_omega, (4,3))
-- 
2.43.0


From 9ae5ea3d58a48043c1f4327fb98f6b63b8254904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 18/35] fix: backward pass of the centroidal LQR computes the
 gain of the first time step

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py
index 2efe035..9027775 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py
@@ -193,7 +193,7 @@ class centroidal_lqr:
         P_prev = np.zeros((13,13))
         K_array = []
 
-        for t in range(horizon-2, 0, -1):
+        for t in range(horizon-2, -1, -1):
             print(t/1000.0)
             # lin_A_t, lin_B_t = self.compute_lin_dyn(t)
             lin_A_t, lin_B_t = self.analytical_lin_dyn(t)
-- 
2.43.0


From 07ca43079e55e8d5baa553655f18a51621cac1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 19/35] fix: adding a linear expression to itself terminates
 and doubles it

---
 solver/src/solver/interface/Exprs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/Exprs.cpp b/solver/src/solver/interface/Exprs.cpp
index 8d167f3..54cf16d 100644
--- a/solver/src/solver/interface/Exprs.cpp
+++ b/solver/src/solver/interface/Exprs.cpp
@@ -66,7 +66,8 @@ namespace solver {
 
   LinExpr& LinExpr::operator+=(const LinExpr& rhs) {
     this->getConstant() += rhs.getConstant();
-    for (size_t i=0; i<rhs.size(); i++) {
+    const size_t num_terms = rhs.size(); // rhs may be this same expression, which grows below
+    for (size_t i=0; i<num_terms; i++) {
     	  this->vars_.push_back(rhs.vars_[i]);
       this->coeffs_.push_back(rhs.coeffs_[i]);
     }
-- 
2.43.0


From 21ab248c7f08fcfc130511f37f621ff98275b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 20/35] fix: fill_kinematic_result uses the jacobian of the
 posture it stores

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a8309fe..d11791e 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -239,6 +239,9 @@ class MomentumKinematicsOptimizer(object):
                     self.inv_kin.get_world_oriented_frame_jacobian(q, idx).dot(dq)[:3] for idx in frames
                 ]).reshape(-1)
 
+        # The jacobian used below has to be the one of the given posture.
+        self.inv_kin.fill_jacobians(q)
+
         data = self.inv_kin.robot.data
         hg = self.inv_kin.robot.centroidalMomentum(q, dq)
 
-- 
2.43.0


From 5a750a790f06b11f92a73b46d63588cb19f4be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 21/35] fix: flight-phase momentum no longer overwrites the
 dynamic plan's reference

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index d11791e..532fff6 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -395,7 +395,7 @@ class MomentumKinematicsOptimizer(object):
                     amom_ref = mom_ref_flight[3:6]
                     lmom_ref[2] -= self.planner_setting.get(PlannerDoubleParam_RobotWeight) * self.dt
                 else:
-                    lmom_ref = self.lmom_dyn[it]
+                    lmom_ref = self.lmom_dyn[it].copy()
                     amom_ref = (self.reg_orientation * se3.log((quad_goal * quad_q.inverse()).matrix()).T + self.amom_dyn[it]).reshape(-1)
 
                 joint_regularization_ref = self.reg_joint_position * (self.joint_des[:,it] - q[7 : ])
-- 
2.43.0


From 638c28bef9ed742df77d94a09365cb81228e1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 22/35] fix: contact plan includes a contact still active at
 the end of the horizon

---
 .../kinoptpy/momentum_kinematics_optimizer.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 532fff6..31ae1cc 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -48,18 +48,17 @@ class EndeffectorTrajectoryGenerator(object):
         for i, eff in enumerate(mom_kin_optimizer.eff_names):
             contact_plan[eff] = []
             start_time = 0.
-            count = 1
-            for it in range(mom_kin_optimizer.num_time_steps-1):
+            for it in range(mom_kin_optimizer.num_time_steps):
                 current_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it].effActivation(i)
-                last_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
-                if not current_contact_activation == last_contact_activation:
-                    if (count%2 == 0):
-                        start_time = it+1
-                    elif (count%2 == 1 or it == mom_kin_optimizer.num_time_steps-1):
-                        end_time = it
-                        plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
-                        contact_plan[eff].append(plan)
-                    count += 1
+                # A contact still active at the end of the horizon ends with it.
+                next_contact_activation = it + 1 < mom_kin_optimizer.num_time_steps and \
+                    mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
+                if next_contact_activation and not current_contact_activation:
+                    start_time = it+1
+                elif current_contact_activation and not next_contact_activation:
+                    end_time = it
+                    plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
+                    contact_plan[eff].append(plan)
         return contact_plan
 
 
-- 
2.43.0


From 80fc2650a145e1f02cd5dd91c4ffe45ce1c8153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 23/35] fix: inverse kinematics refreshes the robot when the
 velocity changed

---
 momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py b/momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py
index 501edba..0823a4e 100644
--- a/momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py
+++ b/momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py
@@ -131,7 +131,7 @@ class PointContactInverseKinematics(object):
             joint_regularization_ref: regularize joint values around a desired trajectory
             is_flight_phase: True if all end-effectors are in the air
         '''
-        if not np.all(np.equal(self.last_q, q)) or np.all(np.equal(self.last_dq, dq)):
+        if not np.all(np.equal(self.last_q, q)) or not np.all(np.equal(self.last_dq, dq)):
             self.forward_robot(q, dq)
 
         self.fill_jacobians(q)
-- 
2.43.0


From c0cf4b6d960bd1bdabb3d4958ff465b593535e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 24/35] fix: second-order inverse kinematics integrates the
 whole time step

---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index b3fae41..910937e 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -195,8 +195,9 @@ class SecondOrderInverseKinematics(object):
         dq_kin = np.zeros([num_time_steps,dq_init.shape[0]])
         ddq_kin = np.zeros_like(dq_kin)
 
-        inner_steps = int(dt/0.001)
-        inner_dt = 0.001
+        # integrate the whole time step, in inner steps of about one millisecond
+        inner_steps = max(1, int(round(dt/0.001)))
+        inner_dt = dt/inner_steps
         time = np.linspace(0., (num_time_steps-1)*dt, num_time_steps)
         splined_com_ref = CubicSpline(time, com_ref)
         splined_lmom_ref = CubicSpline(time, lmom_ref)
-- 
2.43.0


From 8095b36cb19d6313b85318dfeed12da633ded0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 25/35] fix: the optimised motion is stored without writing
 past the last time step

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e150484..055e18a 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -626,15 +626,15 @@ namespace momentumopt {
   {
 	com_.getGuessValue(mat_guess_);
   dynamicsSequence().dynamicsState(0).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,0));
-    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps)-1; time_id++)
       dynamicsSequence().dynamicsState(time_id+1).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	lmom_.getGuessValue(mat_guess_);
-    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps)-1; time_id++)
       dynamicsSequence().dynamicsState(time_id+1).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	amom_.getGuessValue(mat_guess_);
-    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps)-1; time_id++)
       dynamicsSequence().dynamicsState(time_id+1).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization) {
-- 
2.43.0


From a81ad042990a9f5c55e72a5634f3f4944d56b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 26/35] fix: the contact type is only looked up for end
 effectors in contact

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 055e18a..e16699b 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -296,8 +296,8 @@ namespace momentumopt {
       // friction cone constraints
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
-          if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
-            if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+          if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+            if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
               Eigen::Matrix3d eff_rotation = this->contactRotation(time_id, eff_id);
               if (this->getSetting().get(PlannerBoolParam_IsFrictionConeLinear)) {  // using a linear representation
                 Eigen::Matrix<double,4,3> rotated_cone_matrix_ = cone_matrix_*eff_rotation.transpose();
-- 
2.43.0


From ea530da8768e664e51c466841a9c120bd13a8018 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:31 +0000
Subject: [PATCH 27/35] fix: resizing a state sequence discards its previous
 states

---
 solver_lqr/src/solver_lqr/OcpDescription.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 05e3444..489f29d 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -66,6 +66,7 @@ namespace solverlqr
   // StateSequence functions
   void StateSequence::resize(int tdim, int xdim)
   {
+	stateseq_.clear();
 	StateBase state(xdim);
 	for (int time=0; time<tdim; time++)
 	  stateseq_.push_back(state);
-- 
2.43.0


From 433cf6f8ac0c11859ca28127554618b15f23505c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:31 +0000
Subject: [PATCH 28/35] fix: no control cost at the final state, which has no
 control and lies past the dynamics sequence

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index f3c7f90..8e32335 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -65,7 +65,7 @@ namespace momentumopt {
 	}
 
 	double objective = 0.0;
-    for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
+    for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors) && !is_final_timestep; eff_id++)
       if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
         objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
 
-- 
2.43.0


From 94a5d2ba07d12afce765a36aeaab4db10587898d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:31 +0000
Subject: [PATCH 29/35] fix: a failed backward pass is not reported as
 convergence

---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index d85e516..0014027 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -91,7 +91,7 @@ namespace solverlqr {
 
       // Check for termination due to small gradient
       this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) = ControlSequence::controlSequenceGradientNorm(this->getBackPass().controlSeq(), this->getOcp().controlSeq());
-      if (this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) < this->getLqrSetting().get(SolverLqrDoubleParam_ControlGradientTolerance)) {
+      if (backpass_flag_ && this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) < this->getLqrSetting().get(SolverLqrDoubleParam_ControlGradientTolerance)) {
         this->getPrinter().display(MsgLqr::SUCC_gradient, this->getLqrInfo());
         break;
       }
-- 
2.43.0


From 3662e3533641b2639e363fe6e54e64032403023a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:31 +0000
Subject: [PATCH 30/35] fix: constrained controls minimise the quadratic model
 of the cost, half the squared norm plus the gradient term

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 01608c6..6cd38c5 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -120,7 +120,7 @@ namespace solverlqr
       lin_expr_ = 0.0;
       for (int row_id=0; row_id<udim_; row_id++)
         lin_expr_ += chol_hessian(row_id,col_id)*vars_[row_id];
-      quad_expr_.addQuaTerm(1.0, lin_expr_);
+      quad_expr_.addQuaTerm(0.5, lin_expr_);
       quad_expr_.addLinTerm(gradient[col_id]*vars_[col_id]);
     }
     model_.setObjective(quad_expr_, 0.0);
-- 
2.43.0


From a8f73e6c926b838595c69092726255b60bd59ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 31/35] fix: initialising the finite differences again adopts
 the new problem

---
 solver_lqr/src/solver_lqr/FiniteDifferences.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
index c670e41..64e565c 100644
--- a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
+++ b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
@@ -15,7 +15,6 @@ namespace solverlqr
 		  bool compute_objective_first_derivatives, bool compute_dynamics_first_derivatives,
 		  bool compute_objective_second_derivatives, bool compute_dynamics_second_derivatives)
   {
-	if (!is_initialized_) {
 	  is_initialized_ = true;
 	  ocp_ = ocp_description;
 	  compute_dynamics_first_derivatives_ = compute_dynamics_first_derivatives;
@@ -28,6 +27,8 @@ namespace solverlqr
 	  udim_ = ocp_->udim();
 
       // resizing storages
+      cx_seq_.clear(); cu_seq_.clear(); cxx_seq_.clear(); cxu_seq_.clear(); cuu_seq_.clear();
+      fx_seq_.clear(); fu_seq_.clear(); fxx_seq_.clear(); fxu_seq_.clear(); fuu_seq_.clear();
 	  std::vector<Eigen::MatrixXd> fxx, fxu, fuu;
 	  for (int id=0; id<xdim_; id++) { fxx.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
 	  for (int id=0; id<udim_; id++) { fxu.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
@@ -48,7 +49,6 @@ namespace solverlqr
         cxu_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, udim_));
         cuu_seq_.push_back(Eigen::MatrixXd::Zero(udim_, udim_));
       }
-    }
   }
 
   void FiniteDifferences::computeDerivatives()
-- 
2.43.0


From 4698aba7adb38ff907561076f37daf20135da331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:23 +0000
Subject: [PATCH 32/35] fix: trajectory interpolation gave NaN velocity and
 acceleration at time zero

---
 momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index db578a4..9c48105 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -59,8 +59,8 @@ namespace momentumopt
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
       position += regression_coeffs_(i)*std::pow(query_time, double(i));
-      velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
-      acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
+      if (i>0) { velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i); }
+      if (i>1) { acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0); }
     }
   }
 
-- 
2.43.0


From 747d6d0f0d078bdda5216aab0fd70a24b1c28ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 33/35] fix: angular velocities between orientations were
 distorted by the current orientation

---
 .../src/momentumopt/utilities/OrientationUtils.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index 2d704b5..ba9b9f3 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -117,10 +117,10 @@ namespace momentumopt {
     if (q_current.dot(q_desired) < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
 
     Eigen::Quaternion<double> delta_quaternion = q_desired*q_current.inverse();
-    Eigen::Vector3d delta_rotation = logarithmicMap(delta_quaternion);
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
+    Eigen::Vector3d angular_velocity = logarithmicMap(delta_quaternion)/time_step;
 
-    return toAngularVelocity(current_rotation, delta_rotation/time_step, in_body_coordinates);
+    if (in_body_coordinates) { angular_velocity = q_current.inverse()*angular_velocity; }
+    return angular_velocity;
   }
 
   // integration of current orientation given an angular velocity and a time interval
@@ -129,13 +129,9 @@ namespace momentumopt {
                                                      const double& time_step, bool in_body_coordinates)
   {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
-    if (q_current.w() < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
-
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-    Eigen::Vector3d current_rotation_rate = fromAngularVelocity(current_rotation, angular_velocity, in_body_coordinates);
+    Eigen::Quaternion<double> delta_quaternion = exponentialMap(angular_velocity*time_step);
 
-    // return exponentialMap(current_rotation + current_rotation_rate*time_step);
-    return exponentialMap(current_rotation_rate*time_step) * current_orientation;
+    return in_body_coordinates ? q_current*delta_quaternion : delta_quaternion*q_current;
   }
 
   // error in the orientation between current and desired orientation
-- 
2.43.0


From 64a17b632aa0b932ab22f0861998bdfedde5824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:55 +0000
Subject: [PATCH 34/35] fix: the kinematics optimiser ignored the selection of
 active dofs in places

---
 .../kinopt/KinematicsOptimizer.cpp            | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index 6bc7739..9fe9589 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -149,7 +149,7 @@ namespace momentumopt {
 
           // penalty on joint default posture
           for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); dof_id++)
-            quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[dof_id], this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[dof_id] - vars_[jnt_q_.id(6+dof_id,time_id)]);
+            quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[dof_id], this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[dof_id]] - vars_[jnt_q_.id(6+dof_id,time_id)]);
 
           // penalty on joint velocities and accelerations
           for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); dof_id++) {
@@ -261,13 +261,13 @@ namespace momentumopt {
         // integrate current generalized velocities
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            this->kinematicsSequence().kinematicsState(time_id).robotVelocity().generalizedJointVelocities()[jnt_id] = vars_[jnt_qd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
+            this->kinematicsSequence().kinematicsState(time_id).robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[jnt_qd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
 
           this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->integratePosture(this->kinematicsSequence().kinematicsState(time_id), this->getSetting().get(PlannerDoubleParam_KinIntegrationStep));
           if (time_id==0) { this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->differentiatePostures(*ini_state_, this->kinematicsSequence().kinematicsState(time_id), dyn_sequence.dynamicsState(time_id).time()); }
           else            { this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->differentiatePostures(this->kinematicsSequence().kinematicsState(time_id-1), this->kinematicsSequence().kinematicsState(time_id), dyn_sequence.dynamicsState(time_id).time()); }
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            this->kinematicsSequence().kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations()[jnt_id] = vars_[total_qdd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
+            this->kinematicsSequence().kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[total_qdd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
         }
       }
       catch(...)
@@ -345,28 +345,28 @@ namespace momentumopt {
           // center of mass tracking
           lin_cons_ = -desired_com_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centerOfMassJacobian()(axis_id,jnt_id)*vars_[jnt_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centerOfMassJacobian()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingCenterOfMass)[axis_id], lin_cons_);
 
           // linear momentum tracking
           lin_cons_ = -desired_lmom_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(axis_id,jnt_id)*vars_[jnt_qdd_.id(jnt_id,0)]
-                       + kin_interface_->centroidalMomentumMatrixVariation()(axis_id,jnt_id)*vars_[total_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qdd_.id(jnt_id,0)]
+                       + kin_interface_->centroidalMomentumMatrixVariation()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[total_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingLinearMomentum)[axis_id], lin_cons_);
 
           // angular momentum tracking
           lin_cons_ = -desired_amom_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(3+axis_id,jnt_id)*vars_[jnt_qdd_.id(jnt_id,0)]
-                       + kin_interface_->centroidalMomentumMatrixVariation()(3+axis_id,jnt_id)*vars_[total_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(3+axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qdd_.id(jnt_id,0)]
+                       + kin_interface_->centroidalMomentumMatrixVariation()(3+axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[total_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingAngularMomentum)[axis_id], lin_cons_);
 
           // end-effector motion tracking
           for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
             lin_cons_ = -desired_eff_velocity_[eff_id][axis_id];
             for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-              lin_cons_ += kin_interface_->endeffectorJacobians()[eff_id](axis_id,jnt_id)*vars_[jnt_qd_.id(jnt_id,0)];
+              lin_cons_ += kin_interface_->endeffectorJacobians()[eff_id](axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qd_.id(jnt_id,0)];
             if (desired_state.endeffectorActivation(eff_id)) {
               quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition)[axis_id], lin_cons_);
             } else {
@@ -387,7 +387,7 @@ namespace momentumopt {
 
         // penalty over default posture
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); jnt_id++) {
-          quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[jnt_id], vars_[jnt_q_.id(jnt_id,0)] - this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[jnt_id]);
+          quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[jnt_id], vars_[jnt_q_.id(jnt_id,0)] - this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
         }
 
         model_.setObjective(quadobj, 0.0);
@@ -406,17 +406,17 @@ namespace momentumopt {
         for (int con_id=0; con_id<num_constraints; con_id++) {
           lin_cons_ = -kin_interface_->constraintsVector()[con_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->constraintsMatrix().row(con_id)[jnt_id]*vars_[jnt_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->constraintsMatrix().row(con_id)[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]]*vars_[jnt_qd_.id(jnt_id,0)];
           model_.addLinConstr(vars_[slack_vars_.id(con_id,0)], ">", 0.0);
           model_.addLinConstr(lin_cons_, "<", vars_[slack_vars_.id(con_id,0)]);
         }
 
         // integrating joint positions and adding joint limits
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); jnt_id++) {
-          lin_cons_ = -vars_[jnt_q_.id(jnt_id,0)] + current_state.robotPosture().jointPositions()[jnt_id] + this->getSetting().get(PlannerDoubleParam_KinIntegrationStep)*vars_[jnt_qd_.id(6+jnt_id,0)];
+          lin_cons_ = -vars_[jnt_q_.id(jnt_id,0)] + current_state.robotPosture().jointPositions()[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]] + this->getSetting().get(PlannerDoubleParam_KinIntegrationStep)*vars_[jnt_qd_.id(6+jnt_id,0)];
           model_.addLinConstr(lin_cons_, "=", 0.0);
-          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], ">", this->getSetting().get(PlannerVectorParam_MinJointAngles)[jnt_id]);
-          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], "<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[jnt_id]);
+          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], ">", this->getSetting().get(PlannerVectorParam_MinJointAngles)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
+          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], "<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
         }
 
         // bodies non-penetration constraints// Write problem in standard conic form and solve it
@@ -436,7 +436,7 @@ namespace momentumopt {
 
         // storing solution
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-          current_state.robotVelocity().generalizedJointVelocities()[jnt_id] = vars_[jnt_qd_.id(jnt_id,0)].get(SolverDoubleParam_X);
+          current_state.robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[jnt_qd_.id(jnt_id,0)].get(SolverDoubleParam_X);
 
         // integrate current step velocities and update total velocities
         current_state = kin_interface_->integratePosture(current_state, this->getSetting().get(PlannerDoubleParam_KinIntegrationStep));
-- 
2.43.0


From 994f980639a7ac2f4792826c7618e56626541380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:08 +0000
Subject: [PATCH 35/35] fix: saving the result assigned all joints to a matrix
 of the active ones

---
 .../src/momentumopt/dynopt/DynamicsOptimizer.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e16699b..8cc5dd2 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -701,8 +701,14 @@ namespace momentumopt {
 
         // building sequences of joint velocities and accelerations
         mat_guess_.resize(this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs), this->getSetting().get(PlannerIntParam_NumTimesteps));    mat_guess_.setZero();
-        for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotVelocity().generalizedJointVelocities();  } qcqp_cfg["dynopt_params"]["jnt_vel"] = mat_guess_;
-        for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations();  } qcqp_cfg["dynopt_params"]["jnt_acc"] = mat_guess_;
+        for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+          for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); dof_id++)
+            mat_guess_(dof_id,time_id) = kin_sequence.kinematicsState(time_id).robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[dof_id]];
+        qcqp_cfg["dynopt_params"]["jnt_vel"] = mat_guess_;
+        for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+          for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); dof_id++)
+            mat_guess_(dof_id,time_id) = kin_sequence.kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[dof_id]];
+        qcqp_cfg["dynopt_params"]["jnt_acc"] = mat_guess_;
 
         // saving vector of time-steps
         mat_guess_.resize(1, this->getSetting().get(PlannerIntParam_NumTimesteps)); mat_guess_.setZero();
-- 
2.43.0


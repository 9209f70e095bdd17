// The kinematics optimiser: postures and motions that follow the dynamic plan.
#include <yaml_utils/yaml_cpp_fwd.hpp>
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>

using namespace momentumopt;
using namespace solver;

namespace spec {
typedef KinematicsOptimizer O;

//@ momentumopt::KinematicsOptimizer::initialize
void initialize(O& o, PlannerSetting& set, KinematicsInterface* kin)
{
  o.planner_setting_ = &set;
  o.kin_interface_ = kin;
  kin->internalInitialization(set);
  o.ini_state_ = new KinematicsState(set.get(PlannerIntParam_NumDofs));
  o.current_state_ = new KinematicsState(set.get(PlannerIntParam_NumDofs));
  o.kin_sequence_.resize(set.get(PlannerIntParam_NumTimesteps), set.get(PlannerIntParam_NumDofs));
  if (set.get(PlannerBoolParam_UseDefaultSolverSetting))
    o.model_.configSetting(set.get(PlannerStringParam_DefaultSolverSettingFile));
  else
    o.model_.configSetting(set.get(PlannerStringParam_ConfigFile));
}

//@ momentumopt::KinematicsOptimizer::optimize
void optimize(O& o, const DynamicsState& ini, ContactPlanInterface* plan, DynamicsSequence& dyn, bool first)
{
  const PlannerSetting& set = *o.planner_setting_;
  o.contact_plan_ = plan;
  plan->updateEndeffectorTrajectories(ini, dyn);
  *o.current_state_ = KinematicsState(set.get(PlannerIntParam_NumDofs));
  o.current_state_->robotPosture().jointPositions() = set.get(PlannerVectorParam_KinematicDefaultJointPositions);
  o.optimizePosture(*o.current_state_, ini, true);
  *o.ini_state_ = *o.current_state_;
  if (first)
    for (int t = 0; t < set.get(PlannerIntParam_NumTimesteps); ++t) {
      o.optimizePosture(*o.current_state_, dyn.dynamicsState(t), false);
      o.kin_sequence_.kinematicsState(t) = *o.current_state_;
    }
  o.optimizeTrajectory(ini, dyn);
  if (set.get(PlannerBoolParam_DisplayMotion))
    o.displayMotion(dyn);
  if (set.get(PlannerBoolParam_StoreData))
    o.storeSolution(ini, dyn);
}

//@ momentumopt::KinematicsOptimizer::initializeTrajectoryKinematicVariables
void trajectoryVariables(O& o)
{
  const PlannerSetting& set = *o.planner_setting_;
  const int n = set.get(PlannerIntParam_NumTimesteps), d = set.get(PlannerIntParam_NumExtendedActiveDofs);
  const double inf = SolverSetting::inf;
  o.num_vars_ = 0;
  o.com_.initialize('C', 3, n, -inf, inf, o.num_vars_);
  o.lmom_.initialize('C', 3, n, -inf, inf, o.num_vars_);
  o.amom_.initialize('C', 3, n, -inf, inf, o.num_vars_);
  for (int e = 0; e < set.get(PlannerIntParam_NumActiveEndeffectors); ++e) {
    o.eef_pos_[e].initialize('C', 3, n, -inf, inf, o.num_vars_);
    o.eef_vel_[e].initialize('C', 3, n, -inf, inf, o.num_vars_);
  }
  o.jnt_q_.initialize('C', d, n, -inf, inf, o.num_vars_);
  o.jnt_qd_.initialize('C', d, n, -inf, inf, o.num_vars_);
  o.total_qd_.initialize('C', d, n, -inf, inf, o.num_vars_);
  o.total_qdd_.initialize('C', d, n, -inf, inf, o.num_vars_);
}

//@ momentumopt::KinematicsOptimizer::initializePostureKinematicVariables
void postureVariables(O& o)
{
  const PlannerSetting& set = *o.planner_setting_;
  const int d = set.get(PlannerIntParam_NumExtendedActiveDofs);
  const double inf = SolverSetting::inf;
  o.num_vars_ = 0;
  o.lmom_.initialize('C', 3, 1, -inf, inf, o.num_vars_);
  o.amom_.initialize('C', 3, 1, -inf, inf, o.num_vars_);
  o.slack_vars_.initialize('C', o.kin_interface_->constraintsVector().size(), 1, -inf, inf, o.num_vars_);
  o.jnt_q_.initialize('C', set.get(PlannerIntParam_NumActiveDofs), 1, -inf, inf, o.num_vars_);
  o.jnt_qd_.initialize('C', d, 1, -inf, inf, o.num_vars_);
  o.jnt_qdd_.initialize('C', d, 1, -inf, inf, o.num_vars_);
  o.total_qd_.initialize('C', d, 1, -inf, inf, o.num_vars_);
}

//@ momentumopt::KinematicsOptimizer::optimizeTrajectory
void trajectory(O& o, const DynamicsState& ini, DynamicsSequence& dyn)
{
  const PlannerSetting& set = *o.planner_setting_;
  KinematicsInterface& kin = *o.kin_interface_;
  const int n = set.get(PlannerIntParam_NumTimesteps), ne = set.get(PlannerIntParam_NumActiveEndeffectors);
  const int nd = set.get(PlannerIntParam_NumActiveDofs), nx = set.get(PlannerIntParam_NumExtendedActiveDofs);
  const Eigen::VectorXi& act = set.get(PlannerIntVectorParam_ActiveDofs);
  const Eigen::VectorXi& ext = set.get(PlannerIntVectorParam_ExtendedActiveDofs);
  const double h = set.get(PlannerDoubleParam_KinIntegrationStep);

  o.initializeTrajectoryKinematicVariables();
  for (int it = 0; it < set.get(PlannerIntParam_MaxKinTrajectoryIterations); ++it) {
    o.vars_.clear();
    for (int k = 0; k < o.num_vars_; ++k)
      o.vars_.push_back(Var());
    o.model_.clean();
    o.addVariableToModel(o.com_, o.model_, o.vars_);
    o.addVariableToModel(o.lmom_, o.model_, o.vars_);
    o.addVariableToModel(o.amom_, o.model_, o.vars_);
    o.addVariableToModel(o.jnt_q_, o.model_, o.vars_);
    o.addVariableToModel(o.jnt_qd_, o.model_, o.vars_);
    o.addVariableToModel(o.total_qd_, o.model_, o.vars_);
    o.addVariableToModel(o.total_qdd_, o.model_, o.vars_);
    for (int e = 0; e < ne; ++e) {
      o.addVariableToModel(o.eef_pos_[e], o.model_, o.vars_);
      o.addVariableToModel(o.eef_vel_[e], o.model_, o.vars_);
    }
    std::vector<Var>& v = o.vars_;

    // orientations before this iteration
    std::vector<Eigen::Vector3d> rot;
    Eigen::Vector3d rot0 = o.quaternionToRotationVector(o.ini_state_->robotPosture().baseOrientation());
    for (int t = 0; t < n; ++t)
      rot.push_back(o.quaternionToRotationVector(o.kin_sequence_.kinematicsState(t).robotPosture().baseOrientation()));

    // costs
    DCPQuadExpr obj;
    for (int t = 0; t < n; ++t) {
      const DynamicsState& want = dyn.dynamicsState(t);
      for (int i = 0; i < 3; ++i) {
        obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingCenterOfMass)[i], v[o.com_.id(i,t)] - want.centerOfMass()[i]);
        obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingLinearMomentum)[i], v[o.lmom_.id(i,t)] - want.linearMomentum()[i]);
        obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingAngularMomentum)[i], v[o.amom_.id(i,t)] - want.angularMomentum()[i]);
        if (t > 0) {
          obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingLinearMomentumRate)[i], (v[o.lmom_.id(i,t)] - v[o.lmom_.id(i,t-1)])/want.time());
          obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingAngularMomentumRate)[i], (v[o.amom_.id(i,t)] - v[o.amom_.id(i,t-1)])/want.time());
        } else {
          obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingLinearMomentumRate)[i], (v[o.lmom_.id(i,t)] - ini.linearMomentum()[i])/want.time());
          obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingAngularMomentumRate)[i], (v[o.amom_.id(i,t)] - ini.angularMomentum()[i])/want.time());
        }
        for (int e = 0; e < ne; ++e)
          if (want.endeffectorActivation(e))
            obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition)[i], v[o.eef_pos_[e].id(i,t)] - want.endeffectorPosition(e)[i]);
          else
            obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingNonActiveEndeffectorPosition)[i], v[o.eef_pos_[e].id(i,t)] - want.endeffectorPosition(e)[i]);
      }
      for (int d = 0; d < nd; ++d)
        obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[d], v[o.jnt_q_.id(6+d,t)] - set.get(PlannerVectorParam_KinematicDefaultJointPositions)[act[d]]);
      for (int d = 0; d < nx; ++d) {
        obj.addQuaTerm(set.get(PlannerVectorParam_WeightJointAcceleration)[d], v[o.total_qdd_.id(d,t)]);
        obj.addQuaTerm(set.get(PlannerVectorParam_WeightJointVelocity)[d], v[o.total_qd_.id(d,t)]);
      }
    }
    o.model_.setObjective(obj, 0.0);

    // linearised kinematics around the current motion
    for (int t = 0; t < n; ++t) {
      KinematicsState now = kin.updateJacobiansAndState(o.kin_sequence_.kinematicsState(t), h);
      const double dt = dyn.dynamicsState(t).time();
      for (int i = 0; i < 3; ++i) {
        LinExpr c = now.centerOfMass()[i] - v[o.com_.id(i,t)];
        for (int d = 0; d < nx; ++d)
          c += h*kin.centerOfMassJacobian()(i, ext[d])*v[o.jnt_qd_.id(d,t)];
        o.model_.addLinConstr(c, "=", 0.0);
        LinExpr l = -v[o.lmom_.id(i,t)], a = -v[o.amom_.id(i,t)];
        for (int d = 0; d < nx; ++d)
          l += kin.centroidalMomentumMatrix()(i, ext[d])*v[o.total_qd_.id(d,t)];
        o.model_.addLinConstr(l, "=", 0.0);
        for (int d = 0; d < nx; ++d)
          a += kin.centroidalMomentumMatrix()(3+i, ext[d])*v[o.total_qd_.id(d,t)];
        o.model_.addLinConstr(a, "=", 0.0);
        for (int e = 0; e < ne; ++e) {
          o.model_.addLinConstr(v[o.eef_pos_[e].id(i,t)] - now.endeffectorPosition(e)[i] - h*v[o.eef_vel_[e].id(i,t)], "=", 0.0);
          LinExpr w = -v[o.eef_vel_[e].id(i,t)];
          for (int d = 0; d < nx; ++d)
            w += kin.endeffectorJacobian(e)(i, ext[d])*v[o.jnt_qd_.id(d,t)];
          o.model_.addLinConstr(w, "=", 0.0);
        }
      }
      for (int e = 0; e < ne; ++e)
        o.model_.addLinConstr(v[o.eef_pos_[e].id(2,t)], ">", set.get(PlannerDoubleParam_FloorHeight));
      for (int d = 0; d < nx; ++d) {
        double q = 0.0;
        if (d < 3)
          q = now.robotPosture().basePosition()[d];
        else if (d < 6)
          q = rot[t][d-3];
        else
          q = now.robotPosture().jointPositions()[act[d-6]];
        o.model_.addLinConstr(v[o.jnt_q_.id(d,t)] - q - h*v[o.jnt_qd_.id(d,t)], "=", 0.0);
      }
      for (int d = 0; d < nx; ++d)
        if (t > 0)
          o.model_.addLinConstr(v[o.total_qd_.id(d,t)] - (v[o.jnt_q_.id(d,t)] - v[o.jnt_q_.id(d,t-1)])/dt, "=", 0.0);
        else {
          double q = 0.0;
          if (d < 3)
            q = o.ini_state_->robotPosture().basePosition()[d];
          else if (d < 6)
            q = rot0[d-3];
          else
            q = o.ini_state_->robotPosture().jointPositions()[act[d-6]];
          o.model_.addLinConstr(v[o.total_qd_.id(d,t)] - (v[o.jnt_q_.id(d,t)] - q)/dt, "=", 0.0);
        }
      for (int d = 0; d < nx; ++d)
        if (t > 0)
          o.model_.addLinConstr(v[o.total_qdd_.id(d,t)] - (v[o.total_qd_.id(d,t)] - v[o.total_qd_.id(d,t-1)])/dt, "=", 0.0);
        else
          o.model_.addLinConstr(v[o.total_qdd_.id(d,t)] - v[o.total_qd_.id(d,t)]/dt, "=", 0.0);
      for (int d = 0; d < nd; ++d) {
        o.model_.addLinConstr(v[o.jnt_q_.id(6+d,t)], ">", set.get(PlannerVectorParam_MinJointAngles)[act[d]]);
        o.model_.addLinConstr(v[o.jnt_q_.id(6+d,t)], "<", set.get(PlannerVectorParam_MaxJointAngles)[act[d]]);
      }
    }

    o.exitcode_ = o.model_.optimize();
    o.solution_.resize(o.num_vars_, 1);
    o.solution_.setZero();
    for (int k = 0; k < o.num_vars_; ++k)
      o.solution_(k) = v[k].get(SolverDoubleParam_X);
    o.saveSolution(o.com_);
    o.saveSolution(o.lmom_);
    o.saveSolution(o.amom_);
    o.saveSolution(o.jnt_q_);
    o.saveSolution(o.jnt_qd_);
    o.saveSolution(o.total_qd_);
    o.saveSolution(o.total_qdd_);
    for (int e = 0; e < ne; ++e) {
      o.saveSolution(o.eef_pos_[e]);
      o.saveSolution(o.eef_vel_[e]);
    }

    // the motion moves along the solution
    for (int t = 0; t < n; ++t) {
      for (int d = 0; d < nx; ++d)
        o.kin_sequence_.kinematicsState(t).robotVelocity().generalizedJointVelocities()[ext[d]] = v[o.jnt_qd_.id(d,t)].get(SolverDoubleParam_X);
      o.kin_sequence_.kinematicsState(t) = kin.integratePosture(o.kin_sequence_.kinematicsState(t), h);
      if (t > 0)
        o.kin_sequence_.kinematicsState(t) = kin.differentiatePostures(o.kin_sequence_.kinematicsState(t-1), o.kin_sequence_.kinematicsState(t), dyn.dynamicsState(t).time());
      else
        o.kin_sequence_.kinematicsState(t) = kin.differentiatePostures(*o.ini_state_, o.kin_sequence_.kinematicsState(t), dyn.dynamicsState(t).time());
      for (int d = 0; d < nx; ++d)
        o.kin_sequence_.kinematicsState(t).robotAcceleration().generalizedJointAccelerations()[ext[d]] = v[o.total_qdd_.id(d,t)].get(SolverDoubleParam_X);
    }
  }
}

//@ momentumopt::KinematicsOptimizer::optimizePosture
void posture(O& o, KinematicsState& now, const DynamicsState& want, bool initial)
{
  const PlannerSetting& set = *o.planner_setting_;
  KinematicsInterface& kin = *o.kin_interface_;
  const int ne = set.get(PlannerIntParam_NumActiveEndeffectors);
  const int nd = set.get(PlannerIntParam_NumActiveDofs), nx = set.get(PlannerIntParam_NumExtendedActiveDofs);
  const Eigen::VectorXi& act = set.get(PlannerIntVectorParam_ActiveDofs);
  const Eigen::VectorXi& ext = set.get(PlannerIntVectorParam_ExtendedActiveDofs);
  const double h = set.get(PlannerDoubleParam_KinIntegrationStep);

  KinematicsState start = now;
  double prev = SolverSetting::inf;
  for (int it = 0; it < set.get(PlannerIntParam_MaxKinConvergenceIterations); ++it) {
    now = kin.updateJacobiansAndState(now, h);
    o.desired_com_velocity_ = (want.centerOfMass() - now.centerOfMass()) / h;
    o.desired_lmom_velocity_ = (want.linearMomentum() - now.linearMomentum()) / h;
    o.desired_amom_velocity_ = (want.angularMomentum() - now.angularMomentum()) / h;
    for (int e = 0; e < ne; ++e)
      o.desired_eff_velocity_[e] = (want.endeffectorPosition(e) - now.endeffectorPosition(e)) / h;
    double err = o.desired_com_velocity_.norm() + o.desired_amom_velocity_.norm() + o.desired_lmom_velocity_.norm();
    for (int e = 0; e < ne; ++e)
      err += o.desired_eff_velocity_[e].norm();
    if (err < set.get(PlannerDoubleParam_KinConvergenceTolerance) || std::abs(prev - err) < set.get(PlannerDoubleParam_KinConvergenceTolerance))
      break;
    prev = err;

    const int nc = kin.constraintsVector().size();
    o.initializePostureKinematicVariables();
    o.vars_.clear();
    for (int k = 0; k < o.num_vars_; ++k)
      o.vars_.push_back(Var());
    o.model_.clean();
    o.addVariableToModel(o.lmom_, o.model_, o.vars_);
    o.addVariableToModel(o.amom_, o.model_, o.vars_);
    o.addVariableToModel(o.jnt_q_, o.model_, o.vars_);
    o.addVariableToModel(o.jnt_qd_, o.model_, o.vars_);
    o.addVariableToModel(o.jnt_qdd_, o.model_, o.vars_);
    o.addVariableToModel(o.total_qd_, o.model_, o.vars_);
    o.addVariableToModel(o.slack_vars_, o.model_, o.vars_);
    std::vector<Var>& v = o.vars_;

    DCPQuadExpr obj;
    for (int i = 0; i < 3; ++i) {
      LinExpr c = -o.desired_com_velocity_[i];
      for (int d = 0; d < nx; ++d)
        c += kin.centerOfMassJacobian()(i, ext[d])*v[o.jnt_qd_.id(d,0)];
      obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingCenterOfMass)[i], c);
      LinExpr l = -o.desired_lmom_velocity_[i];
      for (int d = 0; d < nx; ++d)
        l += kin.centroidalMomentumMatrix()(i, ext[d])*v[o.jnt_qdd_.id(d,0)] + kin.centroidalMomentumMatrixVariation()(i, ext[d])*v[o.total_qd_.id(d,0)];
      obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingLinearMomentum)[i], l);
      LinExpr a = -o.desired_amom_velocity_[i];
      for (int d = 0; d < nx; ++d)
        a += kin.centroidalMomentumMatrix()(3+i, ext[d])*v[o.jnt_qdd_.id(d,0)] + kin.centroidalMomentumMatrixVariation()(3+i, ext[d])*v[o.total_qd_.id(d,0)];
      obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingAngularMomentum)[i], a);
      for (int e = 0; e < ne; ++e) {
        LinExpr w = -o.desired_eff_velocity_[e][i];
        for (int d = 0; d < nx; ++d)
          w += kin.endeffectorJacobians()[e](i, ext[d])*v[o.jnt_qd_.id(d,0)];
        if (want.endeffectorActivation(e))
          obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition)[i], w);
        else
          obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicTrackingNonActiveEndeffectorPosition)[i], w);
      }
    }
    for (int d = 0; d < nx; ++d) {
      obj.addQuaTerm(set.get(PlannerDoubleParam_LambdaRegularization), v[o.jnt_qdd_.id(d,0)]);
      obj.addQuaTerm(set.get(PlannerDoubleParam_LambdaRegularization), v[o.jnt_qd_.id(d,0)]);
    }
    for (int k = 0; k < nc; ++k)
      obj.addQuaTerm(set.get(PlannerDoubleParam_KinSlacksPenalty), v[o.slack_vars_.id(k,0)]);
    for (int d = 0; d < nd; ++d)
      obj.addQuaTerm(set.get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[d], v[o.jnt_q_.id(d,0)] - set.get(PlannerVectorParam_KinematicDefaultJointPositions)[act[d]]);
    o.model_.setObjective(obj, 0.0);

    for (int k = 0; k < nc; ++k) {
      LinExpr c = -kin.constraintsVector()[k];
      for (int d = 0; d < nx; ++d)
        c += kin.constraintsMatrix().row(k)[ext[d]]*v[o.jnt_qd_.id(d,0)];
      o.model_.addLinConstr(v[o.slack_vars_.id(k,0)], ">", 0.0);
      o.model_.addLinConstr(c, "<", v[o.slack_vars_.id(k,0)]);
    }
    for (int d = 0; d < nd; ++d) {
      o.model_.addLinConstr(now.robotPosture().jointPositions()[act[d]] - v[o.jnt_q_.id(d,0)] + h*v[o.jnt_qd_.id(6+d,0)], "=", 0.0);
      o.model_.addLinConstr(v[o.jnt_q_.id(d,0)], ">", set.get(PlannerVectorParam_MinJointAngles)[act[d]]);
      o.model_.addLinConstr(v[o.jnt_q_.id(d,0)], "<", set.get(PlannerVectorParam_MaxJointAngles)[act[d]]);
    }

    o.exitcode_ = o.model_.optimize();
    o.solution_.resize(o.num_vars_, 1);
    o.solution_.setZero();
    for (int k = 0; k < o.num_vars_; ++k)
      o.solution_(k) = v[k].get(SolverDoubleParam_X);
    o.saveSolution(o.lmom_);
    o.saveSolution(o.amom_);
    o.saveSolution(o.jnt_q_);
    o.saveSolution(o.jnt_qd_);
    o.saveSolution(o.jnt_qdd_);
    o.saveSolution(o.total_qd_);
    o.saveSolution(o.slack_vars_);
    for (int d = 0; d < nx; ++d)
      now.robotVelocity().generalizedJointVelocities()[ext[d]] = v[o.jnt_qd_.id(d,0)].get(SolverDoubleParam_X);
    now = kin.integratePosture(now, h);
    now = kin.differentiatePostures(start, now, want.time());
  }
  if (initial) {
    now.robotVelocity().generalizedJointVelocities().setZero();
    now.robotAcceleration().generalizedJointAccelerations().setZero();
    now.linearMomentum() = want.linearMomentum();
    now.angularMomentum() = want.angularMomentum();
  }
}

//@ momentumopt::KinematicsOptimizer::addVariableToModel
void addVariables(O& o, const OptimizationVariable& x, Model& m, std::vector<Var>& v)
{
  x.getValues(o.mat_lb_, o.mat_ub_, o.mat_guess_, o.size_, o.variable_type_);
  for (int c = 0; c < x.getNumCols(); ++c)
    for (int r = 0; r < x.getNumRows(); ++r)
      if (o.variable_type_ == 'C')
        v[x.id(r,c)] = m.addVar(VarType::Continuous, o.mat_lb_(r,c), o.mat_ub_(r,c), o.mat_guess_(r,c));
      else if (o.variable_type_ == 'B')
        v[x.id(r,c)] = m.addVar(VarType::Binary, int(o.mat_lb_(r,c)), int(o.mat_ub_(r,c)), o.mat_guess_(r,c));
      else
        throw std::runtime_error("unknown type");
  for (int c = 0; c < x.getNumCols(); ++c)
    for (int r = 0; r < x.getNumRows(); ++r)
      v[x.id(r,c)].set(SolverDoubleParam_X, o.mat_guess_(r,c));
}

//@ momentumopt::KinematicsOptimizer::saveSolution
void save(O& o, OptimizationVariable& x)
{
  o.mat_guess_.resize(x.getNumRows(), x.getNumCols());
  o.mat_guess_.setZero();
  for (int c = 0; c < x.getNumCols(); ++c)
    for (int r = 0; r < x.getNumRows(); ++r)
      o.mat_guess_(r,c) = o.solution_(x.id(r,c));
  x.setGuessValue(o.mat_guess_);
}

//@ momentumopt::KinematicsOptimizer::quaternionToRotationVector
Eigen::Vector3d rotation(const O& o, const Eigen::Quaternion<double>& q)
{
  return o.kin_interface_->logarithmicMap(Eigen::Vector4d(q.w(), q.x(), q.y(), q.z()));
}

//@ momentumopt::KinematicsOptimizer::displayMotion
void display(O& o, const DynamicsSequence& dyn)
{
  const PlannerSetting& set = *o.planner_setting_;
  const int n = set.get(PlannerIntParam_NumDofs);
  KinematicsState a(n), b(n), x(n);
  for (int t = 0; t < set.get(PlannerIntParam_NumTimesteps); ++t) {
    if (t == 0)
      a = *o.ini_state_;
    else
      a = o.kin_sequence_.kinematicsState(t-1);
    b = o.kin_sequence_.kinematicsState(t);
    for (int k = 0; k < set.get(PlannerIntParam_NumSubsamples); ++k) {
      const double f = double(k) / double(set.get(PlannerIntParam_NumSubsamples));
      x.robotPosture().jointPositions() = a.robotPosture().jointPositions() + f*(b.robotPosture().jointPositions() - a.robotPosture().jointPositions());
      x.robotPosture().basePosition() = a.robotPosture().basePosition() + f*(b.robotPosture().basePosition() - a.robotPosture().basePosition());
      x.robotPosture().baseOrientation() = a.robotPosture().baseOrientation().slerp(f, b.robotPosture().baseOrientation());
      o.kin_interface_->displayPosture(x, dyn.dynamicsState(t).time()/set.get(PlannerIntParam_NumSubsamples));
    }
  }
}
}

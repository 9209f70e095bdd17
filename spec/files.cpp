// What the planner writes to its result files.
#include <yaml_utils/yaml_cpp_fwd.hpp>
#include <yaml_utils/yaml_eigen.hpp>
#include <fstream>
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
#include <solver_lqr/SolverLqr.hpp>

using namespace momentumopt;
using namespace solver;

namespace spec {
typedef Eigen::MatrixXd M;

//@ momentumopt::DynamicsOptimizer::saveToFile
void dynamics(DynamicsOptimizer& o, const KinematicsSequence& kin)
{
  const PlannerSetting& set = *o.planner_setting_;
  const int n = set.get(PlannerIntParam_NumTimesteps), nx = set.get(PlannerIntParam_NumExtendedActiveDofs);
  if (!set.get(PlannerBoolParam_StoreData))
    return;
  YAML::Node in = YAML::LoadFile(set.get(PlannerStringParam_ConfigFile)), out;
  out["contact_plan"] = in["contact_plan"];
  YAML::Node p = out["dynopt_params"];
  p["time_step"] = set.get(PlannerDoubleParam_TimeStep);
  p["time_horizon"] = set.get(PlannerDoubleParam_TimeHorizon);
  p["robot_mass"] = set.get(PlannerDoubleParam_RobotMass);
  p["n_act_eefs"] = set.get(PlannerIntParam_NumActiveEndeffectors);
  p["ini_com"] = o.ini_state_.centerOfMass();
  p["end_com"] = o.com_pos_goal_;

  // the solution
  o.com_.getGuessValue(o.mat_guess_);
  p["com_motion"] = o.mat_guess_;
  o.lmom_.getGuessValue(o.mat_guess_);
  p["lin_mom"] = o.mat_guess_;
  o.amom_.getGuessValue(o.mat_guess_);
  p["ang_mom"] = o.mat_guess_;

  // the references it tracked
  M m(3, n);
  for (int t = 0; t < n; ++t)
    m.col(t) = kin.kinematicsState(t).centerOfMass();
  p["com_motion_ref"] = m;
  for (int t = 0; t < n; ++t)
    m.col(t) = kin.kinematicsState(t).linearMomentum();
  p["lin_mom_ref"] = m;
  for (int t = 0; t < n; ++t)
    m.col(t) = kin.kinematicsState(t).angularMomentum();
  p["ang_mom_ref"] = m;
  M q = M::Zero(nx, n);
  for (int t = 0; t < n; ++t)
    for (int d = 0; d < nx; ++d)
      q(d, t) = kin.kinematicsState(t).robotVelocity().generalizedJointVelocities()[set.get(PlannerIntVectorParam_ExtendedActiveDofs)[d]];
  p["jnt_vel"] = q;
  M a = M::Zero(nx, n);
  for (int t = 0; t < n; ++t)
    for (int d = 0; d < nx; ++d)
      a(d, t) = kin.kinematicsState(t).robotAcceleration().generalizedJointAccelerations()[set.get(PlannerIntVectorParam_ExtendedActiveDofs)[d]];
  p["jnt_acc"] = a;

  // end of each time step
  M z = M::Zero(1, n);
  double now = 0;
  for (int t = 0; t < n; ++t) {
    now += o.dyn_sequence_.dynamicsState(t).time();
    z(0, t) = now;
  }
  p["time_vec"] = z;

  for (int e = 0; e < set.get(PlannerIntParam_NumActiveEndeffectors); ++e) {
    M f = M::Zero(3, n), z = M::Zero(1, n);
    for (int t = 0; t < n; ++t)
      if (o.dyn_sequence_.dynamicsState(t).endeffectorActivation(e)) {
        f.col(t) = o.dyn_sequence_.dynamicsState(t).endeffectorForce(e);
        z(0, t) = o.dyn_sequence_.dynamicsState(t).endeffectorTorque(e).z();
      }
    p["eef_frc_" + std::to_string(e)] = f;
    p["eef_trq_" + std::to_string(e)] = z;
    o.cop_local_[e].getGuessValue(o.mat_guess_);
    p["eef_cop_" + std::to_string(e)] = o.mat_guess_;
  }
  std::ofstream file(set.get(PlannerStringParam_SaveDynamicsFile));
  file << out;
}

//@ momentumopt::KinematicsOptimizer::storeSolution
void kinematics(KinematicsOptimizer& o, const DynamicsState&, DynamicsSequence& dyn)
{
  const PlannerSetting& set = *o.planner_setting_;
  YAML::Node out;
  out["time_step"] = set.get(PlannerDoubleParam_TimeStep);
  out["time_horizon"] = set.get(PlannerDoubleParam_TimeHorizon);
  out["num_subsamples"] = set.get(PlannerIntParam_NumSubsamples);
  out["initial_robot_configuration"]["generalized_joint_positions"] = o.ini_state_->robotPosture().generalizedJointPositions();
  for (int t = 0; t < set.get(PlannerIntParam_NumTimesteps); ++t) {
    YAML::Node s = out["dyn_state_" + std::to_string(t)];
    KinematicsState& k = o.kin_sequence_.kinematicsState(t);
    s["time"] = dyn.dynamicsState(t).time();
    s["generalized_joint_positions"] = k.robotPosture().generalizedJointPositions();
    s["generalized_joint_velocities"] = k.robotVelocity().generalizedJointVelocities();
    s["generalized_joint_accelerations"] = k.robotAcceleration().generalizedJointAccelerations();
  }
  std::ofstream file(set.get(PlannerStringParam_SaveKinematicsFile));
  file << out;
}

//@ solverlqr::SolverLqr::storeSolution
void lqr(solverlqr::SolverLqr& s)
{
  using namespace solverlqr;
  const OcpBase& o = *s.ocp_;
  const int n = o.tdim(), nx = o.xdim(), nu = o.udim();
  M x(nx, n+1), u(nu, n);
  for (int t = 0; t <= n; ++t)
    x.col(t) = o.stateSeq().state(t).stateVector();
  for (int t = 0; t < n; ++t)
    u.col(t) = o.controlSeq().control(t).feedforward();
  YAML::Node in = YAML::LoadFile(s.setting_->get(SolverLqrStringParam_ConfigFile)), out;
  out["solverlqr_variables"] = in["solverlqr_variables"];
  out["solverlqr_variables"]["tdim"] = n;
  out["solverlqr_variables"]["xdim"] = nx;
  out["solverlqr_variables"]["udim"] = nu;
  out["solverlqr_variables"]["states"] = x;
  out["solverlqr_variables"]["control_ff"] = u;
  out["solverlqr_variables"]["dt"] = o.dt();
  for (int t = 0; t < n; ++t)
    out["solverlqr_variables"]["control_fb_" + std::to_string(t)] = o.controlSeq().control(t).feedback();
  std::ofstream file(s.setting_->get(SolverLqrStringParam_SaveLqrFile));
  file << out;
}
}

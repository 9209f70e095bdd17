// Freshly constructed states: at rest, inactive, and with one entry per joint, end effector and time step.
#include <momentumopt/cntopt/ContactState.hpp>
#include <momentumopt/dynopt/DynamicsState.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
#include <momentumopt/kinopt/KinematicsInterface.hpp>
using namespace momentumopt;
namespace spec {
typedef Eigen::Vector3d V3;
typedef Eigen::Quaternion<double> Q;

//@ momentumopt::ContactState::ContactState/0
void contact0(ContactState& c)
{
  c.selected_as_active_ = false;
  c.contact_type_ = ContactType::FreeContact;
  c.time_ini_ = 0.0; c.time_end_ = 0.0;
  c.optimization_id_ = -1; c.terrain_id_ = -1;
  c.position_ = V3(0,0,0);
  c.orientation_ = Q(1,0,0,0);
}

//@ momentumopt::ViapointState::ViapointState/0
void viapoint0(ViapointState& c)
{
  c.optimization_id_ = -1; c.viapoint_id_ = -2;
  c.position_ = V3(0,0,0);
  c.orientation_ = Q(1,0,0,0);
}

//@ momentumopt::DynamicsState::DynamicsState/0
void dynamics0(DynamicsState& s)
{
  s.dtime_ = 0.1;
  s.com_ = V3(0,0,0);
  s.lmom_ = V3(0,0,0); s.amom_ = V3(0,0,0);
  s.lmomd_ = V3(0,0,0); s.amomd_ = V3(0,0,0);
  for (int e = 0; e < Problem::n_endeffs_; ++e) {
    s.eff_ids_[e] = 0;
    s.cnt_ids_[e] = -1;
    s.eff_activations_[e] = false;
    s.eff_cops_.push_back(V3(0,0,0));
    s.eff_forces_.push_back(V3(0,0,0));
    s.eff_torques_.push_back(V3(0,0,0));
    s.eefs_trqs_contact_point_.push_back(V3(0,0,0));
    s.eff_positions_.push_back(V3(0,0,0));
    s.eff_velocities_.push_back(V3(0,0,0));
    s.eff_accelerations_.push_back(V3(0,0,0));
    s.eff_orientations_.push_back(Q(1,0,0,0));
  }
}

//@ momentumopt::RobotPosture::RobotPosture/1
void posture0(RobotPosture& p, int n)
{
  p.num_joints_ = n;
  p.base_position_ = V3(0,0,0);
  p.base_orientation_ = Q(1,0,0,0);
  p.joint_positions_ = Eigen::VectorXd(n).setZero();
}

//@ momentumopt::RobotVelocity::RobotVelocity/1
void velocity0(RobotVelocity& p, int n)
{
  p.num_joints_ = n;
  p.generalized_joint_velocities_ = Eigen::VectorXd(6+n).setZero();
}

//@ momentumopt::RobotAcceleration::RobotAcceleration/1
void acceleration0(RobotAcceleration& p, int n)
{
  p.num_joints_ = n;
  p.generalized_joint_accelerations_ = Eigen::VectorXd(6+n).setZero();
}

//@ momentumopt::KinematicsState::KinematicsState/1
void kinematics0(KinematicsState& s, int n)
{
  s.robot_posture_ = RobotPosture(n);
  s.robot_velocity_ = RobotVelocity(n);
  s.robot_acceleration_ = RobotAcceleration(n);
  s.num_joints_ = n;
  s.com_ = V3(0,0,0); s.lmom_ = V3(0,0,0); s.amom_ = V3(0,0,0);
  for (int e = 0; e < Problem::n_endeffs_; ++e) {
    s.eff_positions_.push_back(V3(0,0,0));
    s.eff_velocities_.push_back(V3(0,0,0));
    s.eff_accelerations_.push_back(V3(0,0,0));
    s.eff_orientations_.push_back(Q(1,0,0,0));
  }
}

//@ momentumopt::KinematicsSequence::resize
void resize(KinematicsSequence& s, int n, int joints)
{
  s.kinematics_sequence_.clear();
  for (int k = 0; k < n; ++k)
    s.kinematics_sequence_.push_back(KinematicsState(joints));
}

//@ momentumopt::DynamicsSequence::resize
void resized(DynamicsSequence& s, int n)
{
  s.dynamics_sequence_.clear();
  for (int k = 0; k < n; ++k)
    s.dynamics_sequence_.push_back(DynamicsState());
}

// base position, base orientation as x y z w, joints
//@ momentumopt::RobotPosture::generalizedJointPositions
Eigen::VectorXd generalized(const RobotPosture& p)
{
  Eigen::VectorXd q(7 + p.num_joints_);
  q.segment(0,3) = p.base_position_;
  q.segment(3,4) = Eigen::Vector4d(p.base_orientation_.x(), p.base_orientation_.y(), p.base_orientation_.z(), p.base_orientation_.w());
  q.segment(7,p.num_joints_) = p.joint_positions_;
  return q;
}

//@ momentumopt::RobotPosture::pyBaseOrientation/1
void setOrientation(RobotPosture& p, const Eigen::Vector4d xyzw)
{
  p.base_orientation_ = Q(xyzw[3], xyzw[0], xyzw[1], xyzw[2]);
}

//@ momentumopt::RobotPosture::pyBaseOrientation/0
Eigen::Vector4d getOrientation(const RobotPosture& p)
{
  return Eigen::Vector4d(p.base_orientation_.x(), p.base_orientation_.y(), p.base_orientation_.z(), p.base_orientation_.w());
}

//@ momentumopt::KinematicsInterface::internalInitialization
void interface0(KinematicsInterface& k, PlannerSetting& settings)
{
  k.planner_setting_ = &settings;
  int n = 6 + settings.get(PlannerIntParam_NumDofs);
  k.center_of_mass_jacobian_.resize(3, n); k.center_of_mass_jacobian_.setZero();
  k.centroidal_momentum_matrix_.resize(6, n); k.centroidal_momentum_matrix_.setZero();
  k.centroidal_momentum_matrix_variation_.resize(6, n); k.centroidal_momentum_matrix_variation_.setZero();
  k.endeffector_jacobians_.clear();
  for (int e = 0; e < Problem::n_endeffs_; ++e)
    k.endeffector_jacobians_.push_back(Eigen::MatrixXd(6, n).setZero());
  k.initialize(settings);
}
}

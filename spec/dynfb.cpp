// The momentum feedback: the centroidal dynamics as a problem of the iterative LQR.
#include <yaml_utils/yaml_cpp_fwd.hpp>
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/dynopt/DynamicsFeedback.hpp>

using namespace momentumopt;
using namespace solverlqr;

namespace spec {
typedef Eigen::Vector3d V3;
typedef Eigen::MatrixXd M;

//@ momentumopt::DynamicsFeedback::setStatesAndControls
void setStatesAndControls(DynamicsFeedback& d, const DynamicsState& ini, const DynamicsSequence& seq)
{
  const PlannerSetting& set = *d.setting_;
  d.ref_dyn_sequence_ = &seq;
  StateBase& x = d.stateSeq().state(0);
  x.stateVector().segment<3>(0) = ini.centerOfMass();
  x.stateVector().segment<3>(3) = ini.linearMomentum();
  x.stateVector().segment<3>(6) = ini.angularMomentum();
  if (seq.size() != d.tdim())
    throw std::runtime_error("the horizons differ");
  for (int t = 0; t < seq.size(); ++t) {
    Eigen::VectorXd& u = d.controlSeq().control(t).feedforward();
    u.setZero();
    for (int e = 0; e < set.get(PlannerIntParam_NumActiveEndeffectors); ++e) {
      if (!seq.dynamicsState(t).endeffectorActivation(e))
        continue;
      u.segment<3>(3*e) = seq.dynamicsState(t).endeffectorForce(e) * set.get(PlannerDoubleParam_MassTimesGravity);
    }
  }
}

//@ momentumopt::DynamicsFeedback::configure
void configure(DynamicsFeedback& d, const YAML::Node& n)
{
  typedef Eigen::VectorXd V;
  d.amom_final_tracking_ = n["amom_final_tracking"].as<V>().asDiagonal();
  d.lmom_final_tracking_ = n["lmom_final_tracking"].as<V>().asDiagonal();
  d.com_final_tracking_ = n["com_final_tracking"].as<V>().asDiagonal();
  d.amom_tracking_ = n["amom_tracking"].as<V>().asDiagonal();
  d.lmom_tracking_ = n["lmom_tracking"].as<V>().asDiagonal();
  d.com_tracking_ = n["com_tracking"].as<V>().asDiagonal();
  d.control_cost_ = n["control_cost"].as<V>().asDiagonal();
}

//@ momentumopt::DynamicsFeedback::objective
double cost(DynamicsFeedback& d, const StateBase& x, const ControlBase& u, int t, bool last)
{
  const DynamicsState& ref = d.ref_dyn_sequence_->dynamicsState(t > 0 ? t-1 : 0);
  const V3 c = x.stateVector().segment<3>(0) - ref.centerOfMass();
  const V3 l = x.stateVector().segment<3>(3) - ref.linearMomentum();
  const V3 a = x.stateVector().segment<3>(6) - ref.angularMomentum();
  double sum = 0.0;
  if (!last) {
    for (int e = 0; e < d.setting_->get(PlannerIntParam_NumActiveEndeffectors); ++e)
      if (d.ref_dyn_sequence_->dynamicsState(t).endeffectorActivation(e)) {
        const V3 f = u.feedforward().segment<3>(3*e);
        sum += f.dot(d.control_cost_ * f);
      }
    sum += c.dot(d.com_tracking_*c) + l.dot(d.lmom_tracking_*l) + a.dot(d.amom_tracking_*a);
  } else
    sum += c.dot(d.com_final_tracking_*c) + l.dot(d.lmom_final_tracking_*l) + a.dot(d.amom_final_tracking_*a);
  return sum;
}

// the change of the state over one step, the momentum first (semi-implicit)
//@ momentumopt::DynamicsFeedback::dynamics
StateBase change(DynamicsFeedback& d, const StateBase& x, const ControlBase& u, int t)
{
  const PlannerSetting& set = *d.setting_;
  const DynamicsState& ref = d.ref_dyn_sequence_->dynamicsState(t);
  const int n = set.get(PlannerIntParam_NumActiveEndeffectors);
  const double m = set.get(PlannerDoubleParam_RobotMass);
  StateBase dx(d.xdim());
  dx.stateVector().segment<3>(3) = ref.time() * m * set.get(PlannerVectorParam_GravityVector);
  for (int e = 0; e < n; ++e)
    if (ref.endeffectorActivation(e))
      dx.stateVector().segment<3>(3) += ref.time() * u.feedforward().segment<3>(3*e);
  dx.stateVector().segment<3>(0) = ref.time()/m * (x.stateVector().segment<3>(3) + dx.stateVector().segment<3>(3));
  dx.stateVector().segment<3>(6).setZero();
  for (int e = 0; e < n; ++e)
    if (ref.endeffectorActivation(e)) {
      const V3 com = x.stateVector().segment<3>(0) + dx.stateVector().segment<3>(0);
      const V3 f = u.feedforward().segment<3>(3*e);
      dx.stateVector().segment<3>(6) += ref.time() * (ref.endeffectorPosition(e) - com).cross(f);
    }
  return dx;
}

//@ momentumopt::DynamicsFeedbackWrapper::initialize
void initialize(DynamicsFeedbackWrapper& w, SolverLqrSetting& lqr, const PlannerSetting& plan)
{
  w.plan_stg_ = &plan;
  w.lqr_stg_ = &lqr;
  w.dynamics_description_.initialize(lqr);
  w.dynamics_description_.setPlannerSetting(plan);
  w.dynamics_lqrsolver_.initialize(&w.dynamics_description_, lqr);
}

//@ momentumopt::DynamicsFeedbackWrapper::optimize
void optimize(DynamicsFeedbackWrapper& w, const DynamicsState& ini, const DynamicsSequence& seq)
{
  w.dynamics_description_.setStatesAndControls(ini, seq);
  w.dynamics_lqrsolver_.optimize();
}

//@ momentumopt::DynamicsFeedbackWrapper::forceGain
M forceGain(DynamicsFeedbackWrapper& w, int t)
{
  const int last = w.dynamics_description_.tdim() - 1;
  int k = t;
  if (k > last)
    k = last;
  if (k < 0)
    k = 0;
  return w.dynamics_description_.controlSeq().control(k).feedback();
}
}

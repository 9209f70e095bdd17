// The centroidal dynamics optimiser: problem formulation (objective, dynamics, contact limits), variables and results.
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
using namespace solver;
using namespace momentumopt;
namespace spec {
typedef DynamicsOptimizer Opt;
typedef LinExpr X;
static bool timed(Opt& s) { return s.getSetting().heuristic() == Heuristic::TimeOptimization; }
static int steps(Opt& s) { return s.getSetting().get(PlannerIntParam_NumTimesteps); }
static int effs(Opt& s) { return s.getSetting().get(PlannerIntParam_NumActiveEndeffectors); }
static double mass(Opt& s) { return s.getSetting().get(PlannerDoubleParam_RobotMass); }
static double weight(Opt& s) { return s.getSetting().get(PlannerDoubleParam_MassTimesGravity); }
static DynamicsState& st(Opt& s, int k) { return s.dyn_sequence_.dynamicsState(k); }
static bool on(Opt& s, int k, int e) { return st(s,k).endeffectorActivation(e); }
static X at(Opt& s, OptimizationVariable& v, int row, int k) { return X(s.vars_[v.id(row,k)]); }
static X ate(Opt& s, OptimizationVariable& v, int row, int k, int e) { return X(s.vars_[v.id(row, st(s,k).endeffectorActivationId(e))]); }

//@ momentumopt::DynamicsOptimizer::initialize
void initialize(Opt& s, PlannerSetting& set)
{
  s.planner_setting_ = &set;
  s.model_.configSetting(set.get(PlannerBoolParam_UseDefaultSolverSetting) ? set.get(PlannerStringParam_DefaultSolverSettingFile) : set.get(PlannerStringParam_ConfigFile));
  s.friction_cone_.getCone(set.get(PlannerDoubleParam_FrictionCoefficient), s.cone_matrix_);
  s.dyn_sequence_.resize(set.get(PlannerIntParam_NumTimesteps));
  for (int k = 0; k < set.get(PlannerIntParam_NumTimesteps); ++k)
    st(s,k).time() = set.get(PlannerDoubleParam_TimeStep);
}

//@ momentumopt::DynamicsOptimizer::initializeOptimizationVariables
void initializeOptimizationVariables(Opt& s)
{
  const double inf = SolverSetting::inf;
  const int n = steps(s);
  s.num_vars_ = 0;
  s.com_.initialize('C', 3, n, -inf, inf, s.num_vars_);
  s.lmom_.initialize('C', 3, n, -inf, inf, s.num_vars_);
  s.amom_.initialize('C', 3, n, -inf, inf, s.num_vars_);
  if (timed(s)) {
    s.dt_.initialize('C', 1, n, -inf, inf, s.num_vars_);
    s.lmomd_.initialize('C', 3, n, -inf, inf, s.num_vars_);
    s.amomd_.initialize('C', 3, n, -inf, inf, s.num_vars_);
  }
  for (int e = 0; e < effs(s); ++e) {
    // one column per time step in which the end effector is active
    const int m = s.dyn_sequence_.activeEndeffectorSteps()[e];
    s.lb_var_[e].initialize('C', 3, m, -inf, inf, s.num_vars_);
    s.ub_var_[e].initialize('C', 3, m, -inf, inf, s.num_vars_);
    s.frc_world_[e].initialize('C', 3, m, -inf, inf, s.num_vars_);
    s.cop_local_[e].initialize('C', 2, m, -inf, inf, s.num_vars_);
    s.trq_local_[e].initialize('C', 1, m, -inf, inf, s.num_vars_);
  }
}

//@ momentumopt::DynamicsOptimizer::updateTrackingObjective
void updateTrackingObjective(Opt& s)
{
  PlannerSetting& set = s.getSetting();
  s.weight_desired_com_tracking_ = set.get(PlannerVectorParam_WeightDynamicTrackingCenterOfMass);
  set.get(PlannerVectorParam_WeightLinearMomentum) = set.get(PlannerVectorParam_WeightDynamicTrackingLinearMomentum);
  set.get(PlannerVectorParam_WeightAngularMomentum) = set.get(PlannerVectorParam_WeightDynamicTrackingAngularMomentum);
}

//@ momentumopt::DynamicsOptimizer::optimize
ExitCode optimize(Opt& s, const DynamicsState& ini, ContactPlanInterface* plan, const KinematicsSequence& kin, bool tracking)
{
  s.ini_state_ = ini;
  s.contact_plan_ = plan;
  s.weight_desired_com_tracking_.setZero();
  s.com_pos_goal_ = ini.centerOfMass() + s.getSetting().get(PlannerVectorParam_CenterOfMassMotion);
  plan->fillDynamicsSequence(ini, s.dyn_sequence_);
  s.initializeOptimizationVariables();
  if (tracking) s.updateTrackingObjective();
  s.solve_time_ = 0.0;
  s.has_converged_ = false;
  s.internalOptimize(kin, true);
  if (timed(s))
    for (int k = 1; k <= s.getSetting().get(PlannerIntParam_MaxNumTimeIterations); ++k) {
      s.internalOptimize(kin, false);
      if (s.has_converged_) break;
    }
  s.saveToFile(kin);
  return s.exitcode_;
}

// vector from center of mass to center of pressure, as decision expression and as value
static X lever(Opt& s, int k, int e, int a)
{
  const Eigen::Matrix3d R = s.contactRotation(k,e);
  return X(s.contactLocation(k,e,a)) - at(s,s.com_,a,k) + ate(s,s.cop_local_[e],0,k,e)*R.col(0)(a) + ate(s,s.cop_local_[e],1,k,e)*R.col(1)(a);
}
static double leverv(Opt& s, int k, int e, int a)
{
  const Eigen::Matrix3d R = s.contactRotation(k,e);
  return s.contactLocation(k,e,a) - st(s,k).centerOfMass()(a) + R.col(0)(a)*st(s,k).endeffectorCoP(e).x() + R.col(1)(a)*st(s,k).endeffectorCoP(e).y();
}
// first-order expansion of e^2 around the value v of e
static X lin(X e, double v) { return e*(2.0*v) - X(v*v); }
// value of column k (or of the initial state before the first step)
static X before(Opt& s, OptimizationVariable& v, const Eigen::Vector3d& ini, int a, int k) { if (k == 0) return X(ini[a]); return at(s,v,a,k-1); }

static void objective(Opt& s, const KinematicsSequence& kin, bool first)
{
  PlannerSetting& set = s.getSetting();
  DCPQuadExpr& J = s.quad_objective_;
  const int n = steps(s);
  J.clear();
  for (int v = 0; v < set.get(PlannerIntParam_NumViapoints); ++v)
    for (int a = 0; a < 3; ++a)
      J.addQuaTerm(set.get(PlannerVectorParam_WeightCenterOfMassViapoint)[a],
        at(s,s.com_,a,int(set.get(PlannerCVectorParam_Viapoints)[v](0)/set.get(PlannerDoubleParam_TimeStep))) - X(set.get(PlannerCVectorParam_Viapoints)[v](a+1)));
  for (int k = 0; k < n; ++k) {
    const KinematicsState& ref = kin.kinematicsState(k);
    const bool last = k == n-1;
    for (int a = 0; a < 3; ++a) {
      if (last) J.addQuaTerm(set.get(PlannerVectorParam_WeightCenterOfMass)[a], at(s,s.com_,a,k) - X(s.com_pos_goal_[a]));
      J.addQuaTerm(s.weight_desired_com_tracking_[a], at(s,s.com_,a,k) - X(ref.centerOfMass()[a]));
      if (last) {
        J.addQuaTerm(set.get(PlannerVectorParam_WeightFinalLinearMomentum)[a], at(s,s.lmom_,a,k) - X(ref.linearMomentum()[a]));
        J.addQuaTerm(set.get(PlannerVectorParam_WeightFinalAngularMomentum)[a], at(s,s.amom_,a,k) - X(ref.angularMomentum()[a]));
      } else {
        J.addQuaTerm(set.get(PlannerVectorParam_WeightLinearMomentum)[a], at(s,s.lmom_,a,k) - X(ref.linearMomentum()[a]));
        J.addQuaTerm(set.get(PlannerVectorParam_WeightAngularMomentum)[a], at(s,s.amom_,a,k) - X(ref.angularMomentum()[a]));
      }
      const double wl = set.get(PlannerVectorParam_WeightLinearMomentumRate)[a], wa = set.get(PlannerVectorParam_WeightAngularMomentumRate)[a];
      if (timed(s)) {
        J.addQuaTerm(wl, at(s,s.lmomd_,a,k));
        J.addQuaTerm(wa, at(s,s.amomd_,a,k));
      } else if (k == 0) {
        J.addQuaTerm(wl, (at(s,s.lmom_,a,k) - X(s.ini_state_.linearMomentum()[a]))*(1.0/st(s,k).time()));
        J.addQuaTerm(wa, (at(s,s.amom_,a,k) - X(s.ini_state_.angularMomentum()[a]))*(1.0/st(s,k).time()));
      } else {
        J.addQuaTerm(wl, (at(s,s.lmom_,a,k) - at(s,s.lmom_,a,k-1))*(1.0/st(s,k).time()));
        J.addQuaTerm(wa, (at(s,s.amom_,a,k) - at(s,s.amom_,a,k-1))*(1.0/st(s,k).time()));
      }
      for (int e = 0; e < effs(s); ++e)
        if (on(s,k,e)) {
          const bool foot = e == 0 || e == 1;
          const bool hand = e == 2 || e == 3;
          X f = ate(s,s.frc_world_[e],a,k,e);
          if (foot) J.addQuaTerm(set.get(PlannerVectorParam_WeightLegForce)[a], f);
          else J.addQuaTerm(set.get(PlannerVectorParam_WeightArmForce)[a], f);
          const double wr = hand ? set.get(PlannerVectorParam_WeightArmForceRate)[a] : set.get(PlannerVectorParam_WeightLegForceRate)[a];
          X next = 0.0, prev = 0.0;
          if (last) next = f;
          else if (on(s,k+1,e)) next = ate(s,s.frc_world_[e],a,k+1,e);
          if (k == 0) prev = X(s.ini_state_.endeffectorForce(e)[a]);
          else if (on(s,k-1,e)) prev = ate(s,s.frc_world_[e],a,k-1,e);
          J.addQuaTerm(wr, next - f);
          J.addQuaTerm(wr, f - prev);
        }
    }
    for (int e = 0; e < effs(s); ++e)
      if (on(s,k,e)) {
        if (e == 0 || e == 1) J.addQuaTerm(set.get(PlannerDoubleParam_WeightLegTorque), ate(s,s.trq_local_[e],0,k,e));
        else J.addQuaTerm(set.get(PlannerDoubleParam_WeightArmTorque), ate(s,s.trq_local_[e],0,k,e));
      }
    if (timed(s)) {
      J.addQuaTerm(set.get(PlannerDoubleParam_WeightTimePenalty), at(s,s.dt_,0,k));
      J.addQuaTerm(set.get(PlannerDoubleParam_WeightTimeRegularization), at(s,s.dt_,0,k) - X(set.get(PlannerDoubleParam_TimeStep)));
    }
  }
  // the bounds of the torque decomposition are kept close to the expansion around the last solution
  if (timed(s) && !first)
    for (int k = 0; k < n; ++k)
      for (int e = 0; e < effs(s); ++e)
        if (on(s,k,e)) {
          const double w = s.model_.getSetting().get(SolverDoubleParam_SoftConstraintWeightReduced);
          X lx = lever(s,k,e,0), ly = lever(s,k,e,1), lz = lever(s,k,e,2);
          X fx = ate(s,s.frc_world_[e],0,k,e), fy = ate(s,s.frc_world_[e],1,k,e), fz = ate(s,s.frc_world_[e],2,k,e);
          const double LX = leverv(s,k,e,0), LY = leverv(s,k,e,1), LZ = leverv(s,k,e,2);
          const double FX = st(s,k).endeffectorForce(e).x(), FY = st(s,k).endeffectorForce(e).y(), FZ = st(s,k).endeffectorForce(e).z();
          J.addQuaTerm(w, lin(fy-lz, FY-LZ) + lin(ly+fz, LY+FZ) - ate(s,s.ub_var_[e],0,k,e));
          J.addQuaTerm(w, lin(fy+lz, FY+LZ) + lin(ly-fz, LY-FZ) - ate(s,s.lb_var_[e],0,k,e));
          J.addQuaTerm(w, lin(lz+fx, LZ+FX) + lin(fz-lx, FZ-LX) - ate(s,s.ub_var_[e],1,k,e));
          J.addQuaTerm(w, lin(lz-fx, LZ-FX) + lin(fz+lx, FZ+LX) - ate(s,s.lb_var_[e],1,k,e));
          J.addQuaTerm(w, lin(fx-ly, FX-LY) + lin(lx+fy, LX+FY) - ate(s,s.ub_var_[e],2,k,e));
          J.addQuaTerm(w, lin(fx+ly, FX+LY) + lin(lx-fy, LX-FY) - ate(s,s.lb_var_[e],2,k,e));
        }
  s.model_.setObjective(J, 0.0);
}

static void dynamics(Opt& s, bool first)
{
  PlannerSetting& set = s.getSetting();
  Model& M = s.model_;
  const DynamicsState& ini = s.ini_state_;
  for (int k = 0; k < steps(s); ++k) {
    const double h = st(s,k).time();
    if (!timed(s)) {
      for (int a = 0; a < 3; ++a)
        M.addLinConstr(at(s,s.com_,a,k) - before(s,s.com_,ini.centerOfMass(),a,k) - at(s,s.lmom_,a,k)*(h/mass(s)), "=", 0.0);
      for (int a = 0; a < 3; ++a) {
        X f = X(mass(s)*set.get(PlannerVectorParam_GravityVector)[a]);
        for (int e = 0; e < effs(s); ++e)
          if (on(s,k,e)) f += ate(s,s.frc_world_[e],a,k,e)*weight(s);
        if (k == 0) f += X(set.get(PlannerVectorParam_ExternalForce)[a]*weight(s));
        M.addLinConstr(at(s,s.lmom_,a,k) - before(s,s.lmom_,ini.linearMomentum(),a,k) - f*h, "=", 0.0);
      }
      for (int a = 0; a < 3; ++a) {
        X t = 0.0;
        for (int e = 0; e < effs(s); ++e)
          if (on(s,k,e)) t += (ate(s,s.ub_var_[e],a,k,e) - ate(s,s.lb_var_[e],a,k,e))*(0.25*weight(s)) + ate(s,s.trq_local_[e],0,k,e)*s.contactRotation(k,e).col(2)(a);
        M.addLinConstr(at(s,s.amom_,a,k) - before(s,s.amom_,ini.angularMomentum(),a,k) - t*h, "=", 0.0);
      }
    } else {
      X dt = at(s,s.dt_,0,k);
      if (first) {
        for (int a = 0; a < 3; ++a) M.addLinConstr(at(s,s.com_,a,k) - before(s,s.com_,ini.centerOfMass(),a,k) - at(s,s.lmom_,a,k)*(h/mass(s)), "=", 0.0);
        for (int a = 0; a < 3; ++a) M.addLinConstr(at(s,s.lmom_,a,k) - before(s,s.lmom_,ini.linearMomentum(),a,k) - at(s,s.lmomd_,a,k)*h, "=", 0.0);
        for (int a = 0; a < 3; ++a) M.addLinConstr(at(s,s.amom_,a,k) - before(s,s.amom_,ini.angularMomentum(),a,k) - at(s,s.amomd_,a,k)*h, "=", 0.0);
      } else {
        // product of the time step and x, expanded around (h, v):  dt v + h x - h v
        for (int a = 0; a < 3; ++a) {
          const double v = st(s,k).linearMomentum()[a];
          M.addLinConstr(at(s,s.com_,a,k) - before(s,s.com_,ini.centerOfMass(),a,k) - (dt*v + at(s,s.lmom_,a,k)*h - X(h*v))*(1.0/mass(s)), "=", 0.0);
        }
        for (int a = 0; a < 3; ++a) {
          const double v = st(s,k).linearMomentumRate()[a];
          M.addLinConstr(at(s,s.lmom_,a,k) - before(s,s.lmom_,ini.linearMomentum(),a,k) - (dt*v + at(s,s.lmomd_,a,k)*h - X(h*v)), "=", 0.0);
        }
        for (int a = 0; a < 3; ++a) {
          const double v = st(s,k).angularMomentumRate()[a];
          M.addLinConstr(at(s,s.amom_,a,k) - before(s,s.amom_,ini.angularMomentum(),a,k) - (dt*v + at(s,s.amomd_,a,k)*h - X(h*v)), "=", 0.0);
        }
      }
      for (int a = 0; a < 3; ++a) {
        X f = X(mass(s)*set.get(PlannerVectorParam_GravityVector)[a]);
        for (int e = 0; e < effs(s); ++e)
          if (on(s,k,e)) f += ate(s,s.frc_world_[e],a,k,e)*weight(s);
        M.addLinConstr(f - at(s,s.lmomd_,a,k), "=", 0.0);
      }
      for (int a = 0; a < 3; ++a) {
        X t = 0.0;
        for (int e = 0; e < effs(s); ++e)
          if (on(s,k,e)) t += (ate(s,s.ub_var_[e],a,k,e) - ate(s,s.lb_var_[e],a,k,e))*(0.25*weight(s)) + ate(s,s.trq_local_[e],0,k,e)*s.contactRotation(k,e).col(2)(a);
        M.addLinConstr(t - at(s,s.amomd_,a,k), "=", 0.0);
      }
    }
  }
}

static void sumsq(Opt& s, X a, X b) { s.quad_cons_.clear(); s.quad_cons_.addQuaTerm(1.0, a); s.quad_cons_.addQuaTerm(1.0, b); }

static void limits(Opt& s)
{
  PlannerSetting& set = s.getSetting();
  Model& M = s.model_;
  const int n = steps(s);
  for (int k = 0; k < n; ++k)
    M.addLinConstr(at(s,s.com_,2,k) - X(s.contactLocation(0,0,2)), ">", set.get(PlannerDoubleParam_MinRelHeight));
  if (timed(s) && set.get(PlannerBoolParam_IsTimeHorizonFixed)) {
    X total = 0.0;
    for (int k = 0; k < n; ++k) total += at(s,s.dt_,0,k);
    M.addLinConstr(total, "=", n*set.get(PlannerDoubleParam_TimeStep));
  }
  for (int k = 0; k < n; ++k) {
    if (timed(s)) {
      M.addLinConstr(at(s,s.dt_,0,k), ">", set.get(PlannerVectorParam_TimeRange)[0]);
      M.addLinConstr(at(s,s.dt_,0,k), "<", set.get(PlannerVectorParam_TimeRange)[1]);
    }
    for (int e = 0; e < effs(s); ++e)
      if (on(s,k,e)) {
        M.addLinConstr(ate(s,s.trq_local_[e],0,k,e), ">", set.get(PlannerVectorParam_TorqueRange)[0]);
        M.addLinConstr(ate(s,s.trq_local_[e],0,k,e), "<", set.get(PlannerVectorParam_TorqueRange)[1]);
        M.addLinConstr(ate(s,s.cop_local_[e],0,k,e), ">", set.get(PlannerArrayParam_CenterOfPressureRange)[e][0]);
        M.addLinConstr(ate(s,s.cop_local_[e],0,k,e), "<", set.get(PlannerArrayParam_CenterOfPressureRange)[e][1]);
        M.addLinConstr(ate(s,s.cop_local_[e],1,k,e), ">", set.get(PlannerArrayParam_CenterOfPressureRange)[e][2]);
        M.addLinConstr(ate(s,s.cop_local_[e],1,k,e), "<", set.get(PlannerArrayParam_CenterOfPressureRange)[e][3]);
      }
  }
  // forces of unilateral contacts stay inside the friction cone around the contact normal
  for (int k = 0; k < n; ++k)
    for (int e = 0; e < effs(s); ++e)
      if (on(s,k,e) && s.contactType(k,e) != ContactType::FullContact) {
        const Eigen::Matrix3d R = s.contactRotation(k,e);
        if (set.get(PlannerBoolParam_IsFrictionConeLinear)) {
          const Eigen::Matrix<double,4,3> C = s.cone_matrix_*R.transpose();
          for (int r = 0; r < 4; ++r)
            M.addLinConstr(ate(s,s.frc_world_[e],0,k,e)*C(r,0) + ate(s,s.frc_world_[e],1,k,e)*C(r,1) + ate(s,s.frc_world_[e],2,k,e)*C(r,2), "<", 0.0);
        } else {
          X local[3];
          for (int c = 0; c < 3; ++c)
            local[c] = ate(s,s.frc_world_[e],0,k,e)*R(0,c) + ate(s,s.frc_world_[e],1,k,e)*R(1,c) + ate(s,s.frc_world_[e],2,k,e)*R(2,c);
          sumsq(s, local[0], local[1]);
          M.addSocConstr(s.quad_cons_, "<", local[2]*set.get(PlannerDoubleParam_FrictionCoefficient));
        }
      }
  QuadConstrApprox how = QuadConstrApprox::None;
  if (s.getSetting().heuristic() == Heuristic::TrustRegion) how = QuadConstrApprox::TrustRegion;
  else if (s.getSetting().heuristic() == Heuristic::SoftConstraint) how = QuadConstrApprox::SoftConstraint;
  for (int k = 0; k < n; ++k)
    for (int e = 0; e < effs(s); ++e)
      if (on(s,k,e)) {
        X lx = lever(s,k,e,0), ly = lever(s,k,e,1), lz = lever(s,k,e,2);
        X fx = ate(s,s.frc_world_[e],0,k,e), fy = ate(s,s.frc_world_[e],1,k,e), fz = ate(s,s.frc_world_[e],2,k,e);
        // l x f = (upper - lower)/4 with upper, lower bounding the sums of squares of this difference of squares
        sumsq(s, fy-lz, ly+fz); M.addQuaConstr(s.quad_cons_, "<", ate(s,s.ub_var_[e],0,k,e), how);
        sumsq(s, fy+lz, ly-fz); M.addQuaConstr(s.quad_cons_, "<", ate(s,s.lb_var_[e],0,k,e), how);
        sumsq(s, lz+fx, fz-lx); M.addQuaConstr(s.quad_cons_, "<", ate(s,s.ub_var_[e],1,k,e), how);
        sumsq(s, lz-fx, fz+lx); M.addQuaConstr(s.quad_cons_, "<", ate(s,s.lb_var_[e],1,k,e), how);
        sumsq(s, fx-ly, lx+fy); M.addQuaConstr(s.quad_cons_, "<", ate(s,s.ub_var_[e],2,k,e), how);
        sumsq(s, fx+ly, lx-fy); M.addQuaConstr(s.quad_cons_, "<", ate(s,s.lb_var_[e],2,k,e), how);
        s.quad_cons_.clear();
        for (int a = 0; a < 3; ++a)
          s.quad_cons_.addQuaTerm(1.0, lever(s,k,e,a) - X(set.get(PlannerArrayParam_EndeffectorOffset)[e](a)));
        M.addQuaConstr(s.quad_cons_, "<", std::pow(set.get(PlannerVectorParam_MaxEndeffectorLengths)[e], 2.0));
      }
}

static double sol(Opt& s, OptimizationVariable& v, int row, int col) { return s.vars_[v.id(row,col)].get(SolverDoubleParam_X); }
static double sole(Opt& s, OptimizationVariable& v, int row, int k, int e) { return s.vars_[v.id(row,st(s,k).endeffectorActivationId(e))].get(SolverDoubleParam_X); }

// the optimal values become the guesses of every variable
static void results(Opt& s)
{
  if (timed(s)) s.saveSolution(s.dt_);
  s.saveSolution(s.com_);
  s.saveSolution(s.amom_);
  s.saveSolution(s.lmom_);
  if (timed(s)) { s.saveSolution(s.lmomd_); s.saveSolution(s.amomd_); }
  for (int e = 0; e < effs(s); ++e) {
    s.saveSolution(s.frc_world_[e]);
    s.saveSolution(s.cop_local_[e]);
    s.saveSolution(s.trq_local_[e]);
  }
}

// center of mass and linear momentum that the optimal forces and durations produce
static void integrateForces(Opt& s, Eigen::MatrixXd& C, Eigen::MatrixXd& P)
{
  PlannerSetting& set = s.getSetting();
  for (int k = 0; k < steps(s); ++k) {
    if (k == 0) { C.col(k) = s.ini_state_.centerOfMass(); P.col(k) = s.ini_state_.linearMomentum(); }
    else { C.col(k) = C.col(k-1); P.col(k) = P.col(k-1); }
    P.col(k) += mass(s)*set.get(PlannerVectorParam_GravityVector)*sol(s,s.dt_,0,k);
    for (int e = 0; e < effs(s); ++e)
      if (on(s,k,e)) {
        Eigen::Vector3d f;
        for (int a = 0; a < 3; ++a) f(a) = weight(s)*sole(s,s.frc_world_[e],a,k,e);
        P.col(k).head(3) += sol(s,s.dt_,0,k)*f;
      }
    C.col(k).head(3) += 1.0/mass(s)*sol(s,s.dt_,0,k)*P.col(k).head(3);
  }
}

// angular momentum that the optimal forces and torques produce
static void integrateTorques(Opt& s, Eigen::MatrixXd& C, Eigen::MatrixXd& L)
{
  for (int k = 0; k < steps(s); ++k) {
    if (k == 0) L.col(k) = s.ini_state_.angularMomentum();
    else L.col(k) = L.col(k-1);
    for (int e = 0; e < effs(s); ++e)
      if (on(s,k,e)) {
        const Eigen::Matrix3d R = s.contactRotation(k,e);
        Eigen::Vector3d l, f;
        for (int a = 0; a < 3; ++a) {
          const double c = timed(s) ? C(a,k) : sol(s,s.com_,a,k);
          l(a) = s.contactLocation(k,e,a) - c + R(a,0)*sole(s,s.cop_local_[e],0,k,e) + R(a,1)*sole(s,s.cop_local_[e],1,k,e);
          f(a) = weight(s)*sole(s,s.frc_world_[e],a,k,e);
        }
        const Eigen::Vector3d m = R.col(2)*sole(s,s.trq_local_[e],0,k,e);
        L.col(k).head(3) += st(s,k).time()*(l.cross(f) + m);
      }
  }
}

//@ momentumopt::DynamicsOptimizer::internalOptimize
void internalOptimize(Opt& s, const KinematicsSequence& kin, bool first)
{
  const bool t = timed(s);
  try {
    s.vars_.clear();
    for (int i = 0; i < s.num_vars_; ++i) s.vars_.push_back(Var());
    s.model_.clean();
    s.addVariableToModel(s.com_, s.model_, s.vars_);
    s.addVariableToModel(s.lmom_, s.model_, s.vars_);
    s.addVariableToModel(s.amom_, s.model_, s.vars_);
    if (t) {
      s.addVariableToModel(s.dt_, s.model_, s.vars_);
      s.addVariableToModel(s.lmomd_, s.model_, s.vars_);
      s.addVariableToModel(s.amomd_, s.model_, s.vars_);
    }
    for (int e = 0; e < effs(s); ++e) {
      s.addVariableToModel(s.lb_var_[e], s.model_, s.vars_);
      s.addVariableToModel(s.ub_var_[e], s.model_, s.vars_);
      s.addVariableToModel(s.frc_world_[e], s.model_, s.vars_);
      s.addVariableToModel(s.cop_local_[e], s.model_, s.vars_);
      s.addVariableToModel(s.trq_local_[e], s.model_, s.vars_);
    }
    objective(s, kin, first);
    limits(s);
    dynamics(s, first);
    s.timer_.start();
    s.exitcode_ = s.model_.optimize();
    s.solve_time_ += s.timer_.stop();
    s.solution_.resize(s.num_vars_, 1);
    s.solution_.setZero();
    for (int i = 0; i < s.num_vars_; ++i) s.solution_(i) = s.vars_[i].get(SolverDoubleParam_X);
  } catch (...) {
  }
  results(s);
  const int n = steps(s);
  Eigen::MatrixXd C(3,n), P(3,n), L(3,n);
  C.setZero(); P.setZero(); L.setZero();
  if (t) integrateForces(s, C, P);
  integrateTorques(s, C, L);
  if (!t) s.amom_.setGuessValue(L);
  s.storeSolution();
  if (t) {
    // the convexified dynamics have converged once they reproduce what the forces do, or once they no longer improve
    s.last_convergence_err_ = first ? SolverSetting::inf : s.convergence_err_;
    s.com_.getGuessValue(s.com_guess_);
    s.lmom_.getGuessValue(s.lmom_guess_);
    s.amom_.getGuessValue(s.amom_guess_);
    s.convergence_err_ = std::max((s.com_guess_ - C).norm()/n, std::max((s.lmom_guess_ - P).norm()/n, (s.amom_guess_ - L).norm()/n));
    if (s.convergence_err_ < s.getSetting().get(PlannerDoubleParam_MaxTimeResidualTolerance) ||
        std::abs(s.last_convergence_err_ - s.convergence_err_) < s.getSetting().get(PlannerDoubleParam_MinTimeResidualImprovement))
      s.has_converged_ = true;
    if (s.has_converged_) {
      s.amom_.setGuessValue(L);
      s.storeSolution();
    }
  }
}

//@ momentumopt::DynamicsOptimizer::addVariableToModel
void addVariableToModel(Opt& s, const OptimizationVariable& v, Model& m, std::vector<Var>& vars)
{
  v.getValues(s.mat_lb_, s.mat_ub_, s.mat_guess_, s.size_, s.variable_type_);
  for (int c = 0; c < v.getNumCols(); ++c)
    for (int r = 0; r < v.getNumRows(); ++r) {
      if (s.variable_type_ != 'C') throw std::runtime_error("");
      vars[v.id(r,c)] = m.addVar(VarType::Continuous, s.mat_lb_(r,c), s.mat_ub_(r,c), s.mat_guess_(r,c));
    }
  for (int c = 0; c < v.getNumCols(); ++c)
    for (int r = 0; r < v.getNumRows(); ++r)
      vars[v.id(r,c)].set(SolverDoubleParam_X, s.mat_guess_(r,c));
}

//@ momentumopt::DynamicsOptimizer::saveSolution
void saveSolution(Opt& s, OptimizationVariable& v)
{
  s.mat_guess_.resize(v.getNumRows(), v.getNumCols());
  s.mat_guess_.setZero();
  for (int c = 0; c < v.getNumCols(); ++c)
    for (int r = 0; r < v.getNumRows(); ++r)
      s.mat_guess_(r,c) = s.solution_(v.id(r,c));
  v.setGuessValue(s.mat_guess_);
}

//@ momentumopt::DynamicsOptimizer::storeSolution
void storeSolution(Opt& s)
{
  const int n = steps(s);
  Eigen::MatrixXd& g = s.mat_guess_;
  // a state holds the motion with which its time step begins
  s.com_.getGuessValue(g);
  st(s,0).centerOfMass() = Eigen::Vector3d(g.block<3,1>(0,0));
  for (int k = 0; k < n-1; ++k) st(s,k+1).centerOfMass() = Eigen::Vector3d(g.block<3,1>(0,k));
  s.lmom_.getGuessValue(g);
  for (int k = 0; k < n-1; ++k) st(s,k+1).linearMomentum() = Eigen::Vector3d(g.block<3,1>(0,k));
  s.amom_.getGuessValue(g);
  for (int k = 0; k < n-1; ++k) st(s,k+1).angularMomentum() = Eigen::Vector3d(g.block<3,1>(0,k));
  if (timed(s)) {
    s.dt_.getGuessValue(g);
    for (int k = 0; k < n; ++k) st(s,k).time() = g(0,k);
    s.lmomd_.getGuessValue(g);
    for (int k = 0; k < n; ++k) st(s,k).linearMomentumRate() = Eigen::Vector3d(g.block<3,1>(0,k));
    s.amomd_.getGuessValue(g);
    for (int k = 0; k < n; ++k) st(s,k).angularMomentumRate() = Eigen::Vector3d(g.block<3,1>(0,k));
  }
  for (int e = 0; e < effs(s); ++e) {
    s.frc_world_[e].getGuessValue(g);
    for (int k = 0; k < n; ++k)
      if (on(s,k,e)) st(s,k).endeffectorForce(e) = Eigen::Vector3d(g.block<3,1>(0,st(s,k).endeffectorActivationId(e)));
    s.cop_local_[e].getGuessValue(g);
    for (int k = 0; k < n; ++k)
      if (on(s,k,e)) st(s,k).endeffectorCoP(e) = Eigen::Vector3d(g(0,st(s,k).endeffectorActivationId(e)), g(1,st(s,k).endeffectorActivationId(e)), 0.0);
    s.trq_local_[e].getGuessValue(g);
    for (int k = 0; k < n; ++k)
      if (on(s,k,e)) st(s,k).endeffectorTorque(e) = Eigen::Vector3d(0.0, 0.0, g(0,st(s,k).endeffectorActivationId(e)));
    // moment about the contact point: normal torque plus the force acting at the center of pressure
    for (int k = 0; k < n; ++k)
      if (on(s,k,e)) {
        const Eigen::Matrix3d R = st(s,k).endeffectorOrientation(e).toRotationMatrix();
        st(s,k).endeffectorTorqueAtContactPoint(e) = st(s,k).endeffectorTorque(e) + st(s,k).endeffectorCoP(e).cross(weight(s)*R.transpose()*st(s,k).endeffectorForce(e));
      }
  }
}

//@ momentumopt::DynamicsOptimizer::contactType
const ContactType& contactType(const Opt& s, int k, int e) { return s.contact_plan_->contactSequence().endeffectorContacts(e)[s.dynamicsSequence().dynamicsState(k).endeffectorContactId(e)].contactType(); }
//@ momentumopt::DynamicsOptimizer::contactRotation
Eigen::Matrix3d contactRotation(const Opt& s, int k, int e) { return s.contact_plan_->contactSequence().endeffectorContacts(e)[s.dynamicsSequence().dynamicsState(k).endeffectorContactId(e)].contactOrientation().toRotationMatrix(); }
//@ momentumopt::DynamicsOptimizer::contactLocation
double contactLocation(const Opt& s, int k, int e, int a) { return s.contact_plan_->contactSequence().endeffectorContacts(e)[s.dynamicsSequence().dynamicsState(k).endeffectorContactId(e)].contactPosition()[a]; }

// four facets of the friction pyramid: the first has an outward normal along the diagonal, each next one is turned by a quarter
//@ momentumopt::FrictionCone::getCone
void getCone(FrictionCone& c, double mu, FrictionCone::ConeMat& m)
{
  if (mu <= 0.001) { mu = 0.001; }
  Eigen::Vector3d n(0.5*sqrt(2.0), 0.5*sqrt(2.0), -mu);
  n.normalize();
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  R(0,0) = 0.0; R(0,1) = -1.0;
  R(1,0) = 1.0; R(1,1) = 0.0;
  m.row(0) = n;
  m.row(1) = R*n;
  m.row(2) = R*(R*n);
  m.row(3) = R*(R*(R*n));
}
}

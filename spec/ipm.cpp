// Primal-dual interior point method on the homogeneous self-dual embedding (ECOS): residuals, statistics, termination, right-hand sides, step length,
// equilibration and KKT data, written from the method's definition.
#include <cmath>
#include <algorithm>
#include <solver/optimizer/IPSolver.hpp>
using namespace solver;
namespace spec {
typedef InteriorPointSolver IPM;
static double norm(const Eigen::Ref<const Eigen::VectorXd>& v) { return v.norm(); }

//@ solver::InteriorPointSolver::updateEquilH
void updateEquilH(IPM& s, int id, double value) { s.storage_->cbh_[s.storage_->cbh_.cone_->lpconestart_ + id] = value / s.equilibration_routine_.equil_vec_[s.equilibration_routine_.equil_vec_.cone_->lpconestart_ + id]; }

//@ solver::InteriorPointSolver::computeResiduals
void computeResiduals(IPM& s)
{
  SolverStorage& st = *s.storage_;
  // r_x = -A'y - G'z - c tau,  r_y = A x - b tau,  r_z = s + G x - h tau,  r_t = kappa + c'x + b'y + h'z
  s.linear_solver_.matrixTransposeTimesVector(st.A_, s.opt_.y(), s.res_.x(), false, true);
  s.linear_solver_.matrixTransposeTimesVector(st.G_, s.opt_.z(), s.res_.x(), false, false);
  s.residual_x_ = s.res_.x().norm();
  s.linear_solver_.matrixTransposeTimesVector(st.At_, s.opt_.x(), s.res_.y(), true, true);
  s.residual_y_ = s.res_.y().norm();
  s.linear_solver_.matrixTransposeTimesVector(st.Gt_, s.opt_.x(), s.res_.z(), true, true);
  s.res_.z() += s.opt_.s();
  s.residual_z_ = s.res_.z().norm();
  s.cx_ = st.c().dot(s.opt_.x());
  s.by_ = st.b().dot(s.opt_.y());
  s.hz_ = st.h().dot(s.opt_.z());
  s.res_ -= s.opt_.tau()*st.cbh();
  s.residual_t_ = s.opt_.kappa() + s.cx_ + s.by_ + s.hz_;
}

//@ solver::InteriorPointSolver::updateStatistics
void updateStatistics(IPM& s)
{
  OptimizationInfo& i = s.optimization_info_;
  const double tau = s.opt_.tau(), kappa = s.opt_.kappa();
  const double nx = s.opt_.x().norm(), ny = s.opt_.y().norm(), nz = s.opt_.z().norm(), ns = s.opt_.s().norm();
  const double gap = s.opt_.s().dot(s.opt_.z());
  const double pcost = s.cx_/tau, dcost = -(s.by_ + s.hz_)/tau;
  i.primal_cost_ = pcost;
  i.dual_cost_ = dcost;
  i.duality_gap_ = gap;
  i.kappa_over_tau_ = kappa/tau;
  i.merit_function_ = (gap + tau*kappa)/(s.cone_->sizecone_ + 1);
  if (pcost < 0.0) { i.relative_duality_gap_ = -gap/pcost; }
  else if (dcost > 0.0) { i.relative_duality_gap_ = gap/dcost; }
  else { i.relative_duality_gap_ = SolverSetting::nan; }
  i.primal_residual_ = std::max(s.res_.y().norm()/std::max(s.inires_y_ + nx, 1.0), s.res_.z().norm()/std::max(s.inires_z_ + nx + ns, 1.0))/tau;
  i.dual_residual_ = s.res_.x().norm()/std::max(s.inires_x_ + ny + nz, 1.0)/tau;
  const double tol = s.setting_->get(SolverDoubleParam_DualityGapRelTol);
  if ((s.by_ + s.hz_)/std::max(ny + nz, 1.0) < -tol) { i.primal_infeasibility_ = s.residual_x_/std::max(ny + nz, 1.0); }
  else { i.primal_infeasibility_ = SolverSetting::nan; }
  if (s.cx_/std::max(nx, 1.0) < -tol) { i.dual_infeasibility_ = std::max(s.residual_y_/std::max(nx, 1.0), s.residual_z_/std::max(nx + ns, 1.0)); }
  else { i.dual_infeasibility_ = SolverSetting::nan; }
}

//@ solver::InteriorPointSolver::convergenceCheck
ExitCode convergenceCheck(IPM& s, const PrecisionConvergence& mode)
{
  OptimizationInfo& i = s.optimization_info_;
  const bool full = mode == PrecisionConvergence::Full;
  const double feas = s.setting_->get(full ? SolverDoubleParam_FeasibilityTol : SolverDoubleParam_FeasibilityTolInacc);
  const double abst = s.setting_->get(full ? SolverDoubleParam_DualityGapAbsTol : SolverDoubleParam_DualityGapAbsTolInacc);
  const double relt = s.setting_->get(full ? SolverDoubleParam_DualityGapRelTol : SolverDoubleParam_DualityGapRelTolInacc);
  i.mode_ = mode;
  const bool cost = s.cx_ < 0.0 || s.by_ + s.hz_ <= abst;
  const bool feasible = i.primal_residual_ < feas && i.dual_residual_ < feas;
  const bool tight = i.duality_gap_ < abst || i.relative_duality_gap_ < relt;
  if (cost && feasible && tight) {
    s.printer_.display(Msg::OptimalityReached, i);
    return full ? ExitCode::Optimal : ExitCode::OptimalInacc;
  }
  if (i.dual_infeasibility_ != SolverSetting::nan && i.dual_infeasibility_ < feas && s.opt_.tau() < s.opt_.kappa()) {
    s.printer_.display(Msg::DualInfeasibility, i);
    return full ? ExitCode::DualInf : ExitCode::DualInfInacc;
  }
  if ((i.primal_infeasibility_ != SolverSetting::nan && i.primal_infeasibility_ < feas && s.opt_.tau() < s.opt_.kappa()) ||
      (s.opt_.tau() < feas && s.opt_.kappa() < feas && i.primal_infeasibility_ < feas)) {
    s.printer_.display(Msg::PrimalInfeasibility, i);
    return full ? ExitCode::PrimalInf : ExitCode::PrimalInfInacc;
  }
  return ExitCode::NotConverged;
}

//@ solver::InteriorPointSolver::saveIterateAsBest
void saveIterateAsBest(IPM& s)
{
  s.best_opt_ = s.opt_;
  s.best_optimization_info_ = s.optimization_info_;
  s.best_optimization_info_.iteration_ = s.optimization_info_.iteration_;
}
//@ solver::InteriorPointSolver::restoreBestIterate
void restoreBestIterate(IPM& s)
{
  s.optimization_info_ = s.best_optimization_info_;
  s.opt_ = s.best_opt_;
}
//@ solver::OptimizationInfo::operator=
OptimizationInfo& infoAssign(OptimizationInfo& a, const OptimizationInfo& b)
{
  if (&a == &b) { return a; }
  a.tau_ = b.tau_; a.kappa_ = b.kappa_; a.kappa_over_tau_ = b.kappa_over_tau_;
  a.primal_cost_ = b.primal_cost_; a.dual_cost_ = b.dual_cost_;
  a.duality_gap_ = b.duality_gap_; a.relative_duality_gap_ = b.relative_duality_gap_;
  a.primal_residual_ = b.primal_residual_; a.dual_residual_ = b.dual_residual_;
  a.primal_infeasibility_ = b.primal_infeasibility_; a.dual_infeasibility_ = b.dual_infeasibility_;
  a.merit_function_ = b.merit_function_;
  return a;
}
static bool improves(double a, double b) { return a > 0.0 && a < b; }
static bool gapImproves(const OptimizationInfo& a, const OptimizationInfo& b) { return a.duality_gap_ > 0.0 && b.duality_gap_ > 0.0 && a.duality_gap_ < b.duality_gap_; }
//@ solver::OptimizationInfo::isBetterThan
bool isBetterThan(const OptimizationInfo& a, const OptimizationInfo& b)
{
  const bool base = gapImproves(a, b) && improves(a.merit_function_, b.merit_function_);
  if (a.primal_infeasibility_ != SolverSetting::nan && a.kappa_over_tau_ > 1.0) {
    return b.primal_infeasibility_ != SolverSetting::nan ? base && improves(a.primal_infeasibility_, b.primal_residual_) : base;
  }
  return base && improves(a.primal_residual_, b.primal_residual_) && improves(a.dual_residual_, b.dual_residual_) && improves(a.kappa_over_tau_, b.kappa_over_tau_);
}

//@ solver::InteriorPointSolver::rhsAffineStep
void rhsAffineStep(IPM& s)
{
  Cone& k = *s.cone_;
  const Eigen::VectorXi& P = s.linear_solver_.invPerm_.indices();
  const int n = k.nvars_, p = k.neq_, l = k.nineq_;
  for (int i=0; i<n; i++) { s.rhs2_[P[i]] = s.res_[i]; }
  for (int i=0; i<p; i++) { s.rhs2_[P[n+i]] = -s.res_.y()[i]; }
  for (int i=0; i<l; i++) { s.rhs2_[P[n+p+i]] = s.opt_.s()[i] - s.res_.z()[i]; }
  for (int q=0; q<k.nsoc_; q++) {
    for (int i=0; i<k.sizeSoc(q); i++) {
      s.rhs2_[P[k.ext_SOC_start_[q]+i]] = s.opt_.s()[k.SOC_start_[q]+i] - s.res_.z()[k.SOC_start_[q]+i];
    }
  }
}
//@ solver::InteriorPointSolver::rhsCenteringPredictorStep
void rhsCenteringPredictorStep(IPM& s)
{
  Cone& k = *s.cone_;
  const Eigen::VectorXi& P = s.linear_solver_.invPerm_.indices();
  const double f = 1.0 - s.optimization_info_.correction_step_length_;
  const int n = k.nvars_, p = k.neq_, l = k.nineq_;
  for (int i=0; i<n; i++) { s.rhs2_[P[i]] = f*s.rhs2_[P[i]]; }
  for (int i=0; i<p; i++) { s.rhs2_[P[n+i]] = f*s.rhs2_[P[n+i]]; }
  for (int i=0; i<l; i++) { s.rhs2_[P[n+p+i]] = s.dz_combined_[i]; }
  for (int q=0; q<k.nsoc_; q++) {
    for (int i=0; i<k.sizeSoc(q); i++) { s.rhs2_[P[k.ext_SOC_start_[q]+i]] = s.dz_combined_[k.SOC_start_[q]+i]; }
  }
}
//@ solver::InteriorPointSolver::initializeVariables
ExitCode initializeVariables(IPM& s)
{
  SolverStorage& st = *s.storage_;
  Cone& k = *s.cone_;
  const int n = k.nvars_, p = k.neq_, l = k.nineq_;
  s.inires_x_ = std::max(1.0, st.c().norm());
  s.inires_y_ = std::max(1.0, st.b().norm());
  s.inires_z_ = std::max(1.0, st.h().norm());
  s.linear_solver_.initializeMatrix();
  if (s.linear_solver_.numericFactorization() != FactStatus::Optimal) {
    s.printer_.display(Msg::MatrixFactorization, s.optimization_info_);
    return ExitCode::Indeterminate;
  }
  const Eigen::VectorXi& P = s.linear_solver_.invPerm_.indices();
  for (int i=0; i<n; i++) { s.rhs1_[P[i]] = 0.0; }
  for (int i=0; i<p; i++) { s.rhs1_[P[n+i]] = st.b()[i]; }
  for (int i=0; i<l; i++) { s.rhs1_[P[n+p+i]] = st.h()[i]; }
  for (int q=0; q<k.nsoc_; q++) {
    for (int i=0; i<k.sizeSoc(q); i++) { s.rhs1_[P[k.ext_SOC_start_[q]+i]] = st.cbh()[k.opt_SOC_start_[q]+i]; }
  }
  s.optimization_info_.linear_solve_refinements_ = s.linear_solver_.solve(s.rhs1_, s.dopt2_, true);
  s.opt_.x() = s.dopt2_.x();
  s.opt_.s() = -s.dopt2_.z();
  k.conicProjection(s.opt_.s());
  for (int i=0; i<n; i++) { s.rhs2_[P[i]] = -st.c()[i]; }
  s.optimization_info_.affine_linear_solve_refinements_ = s.linear_solver_.solve(s.rhs2_, s.dopt1_, true);
  s.opt_.y() = s.dopt1_.y();
  s.opt_.z() = s.dopt1_.z();
  k.conicProjection(s.opt_.z());
  for (int i=0; i<n; i++) { s.rhs1_[P[i]] = -st.c()[i]; }
  s.opt_.tau() = 1.0;
  s.opt_.kappa() = 1.0;
  s.optimization_info_.affine_step_length = 0.0;
  s.optimization_info_.step_length_ = 0.0;
  return ExitCode::Optimal;
}
//@ solver::InteriorPointSolver::initialize
void initialize(IPM& s, SolverStorage& storage, Cone& cone, SolverSetting& setting)
{
  s.cone_ = &cone;
  s.setting_ = &setting;
  s.storage_ = &storage;
  s.internalInitialization();
}
//@ solver::InteriorPointSolver::internalInitialization
void internalInitialization(IPM& s)
{
  Cone& k = *s.cone_;
  s.printer_.initialize(*s.setting_);
  s.equilibration_routine_.setEquilibration(k, *s.setting_, *s.storage_);
  s.storage_->At_ = s.storage_->A_.transpose();
  s.storage_->Gt_ = s.storage_->G_.transpose();
  s.linear_solver_.initialize(k, *s.setting_, *s.storage_);
  s.opt_.initialize(k); s.best_opt_.initialize(k); s.dopt1_.initialize(k); s.dopt2_.initialize(k);
  s.rhs1_.initialize(k); s.rhs2_.initialize(k); s.res_.initialize(k);
  s.rho_.initialize(k); s.sigma_.initialize(k); s.lambda_.initialize(k); s.lbar_.initialize(k);
  s.ds_combined_.initialize(k); s.dz_combined_.initialize(k);
  s.ds_affine_by_W_.initialize(k); s.W_times_dz_affine_.initialize(k);
}

static double dot(int n, const double* a, const double* b)
{
  double r = 0.0;
  for (int i=0; i<n; i++) { r += a[i]*b[i]; }
  return r;
}
// inner product of the problem data (c,b,h) with a direction
static double cbh(IPM& s, OptimizationVector& d)
{
  SolverStorage& st = *s.storage_;
  return dot(s.cone_->nvars_, st.c().data(), d.x().data()) + dot(s.cone_->neq_, st.b().data(), d.y().data()) + dot(s.cone_->sizecone_, st.h().data(), d.z().data());
}
//@ solver::InteriorPointSolver::lineSearch
double lineSearch(IPM& s, const Eigen::Ref<const Eigen::VectorXd>& ds, const Eigen::Ref<const Eigen::VectorXd>& dz, double tau, double dtau, double kappa, double dkappa)
{
  Cone& k = *s.cone_;
  double lo_s = ds[0]/s.lambda_[0], lo_z = dz[0]/s.lambda_[0];
  for (int i=1; i<k.nineq_; i++) {
    lo_s = std::min(lo_s, ds[i]/s.lambda_[i]);
    lo_z = std::min(lo_z, dz[i]/s.lambda_[i]);
  }
  const double lo = std::min(lo_s, lo_z);
  double alpha = lo < 0.0 ? -1.0/lo : 1.0/s.setting_->get(SolverDoubleParam_DynamicRegularizationThresh);
  const double at = -tau/dtau, ak = -kappa/dkappa;
  if (at > 0.0 && at < alpha) { alpha = at; }
  if (ak > 0.0 && ak < alpha) { alpha = ak; }
  for (int q=0; q<k.nsoc_; q++) {
    const int n = k.sizeSoc(q), o = k.SOC_start_[q];
    Eigen::Map<const Eigen::VectorXd> l(s.lambda_.data()+o, n);
    const double res = k.conicResidual(l);
    if (!(res <= 0.0)) {
      const double inv = 1.0/std::sqrt(res);
      for (int j=0; j<n; j++) { s.lbar_[o+j] = s.lambda_[o+j]/std::sqrt(res); }
      double ps = s.lbar_[o]*ds[o], pz = s.lbar_[o]*dz[o];
      for (int j=1; j<n; j++) { ps -= s.lbar_[o+j]*ds[o+j]; }
      for (int j=1; j<n; j++) { pz -= s.lbar_[o+j]*dz[o+j]; }
      s.rho_[o] = inv*ps;
      s.sigma_[o] = inv*pz;
      for (int j=1; j<n; j++) {
        s.rho_[o+j] = inv*(ds[o+j] - (ps + ds[o])/(1.0 + s.lbar_[o])*s.lbar_[o+j]);
        s.sigma_[o+j] = inv*(dz[o+j] - (pz + dz[o])/(1.0 + s.lbar_[o])*s.lbar_[o+j]);
      }
      Eigen::Map<const Eigen::VectorXd> r(s.rho_.data()+o, n);
      Eigen::Map<const Eigen::VectorXd> g(s.sigma_.data()+o, n);
      alpha = std::min(alpha, 1.0/std::max(std::max(r.tail(n-1).norm() - s.rho_[o], g.tail(n-1).norm() - s.sigma_[o]), 0.0));
    }
  }
  return std::max(std::min(alpha, s.setting_->get(SolverDoubleParam_MaximumStepLength)), s.setting_->get(SolverDoubleParam_MinimumStepLength));
}

// accept the current iterate to reduced precision, or report code
static ExitCode reduced(IPM& s, ExitCode code)
{
  const ExitCode r = s.convergenceCheck(PrecisionConvergence::Reduced);
  return r == ExitCode::NotConverged ? code : r;
}
//@ solver::InteriorPointSolver::optimize
ExitCode optimize(IPM& s)
{
  OptimizationInfo& I = s.optimization_info_;
  SolverSetting& P = *s.setting_;
  Cone& K = *s.cone_;
  s.prev_pres_ = SolverSetting::nan;
  s.exitcode_ = ExitCode::Indeterminate;
  if (s.initializeVariables() == ExitCode::Indeterminate) { return ExitCode::Indeterminate; }
  I.get(SolverIntParam_NumIter) = 0;
  while (I.get(SolverIntParam_NumIter) <= P.get(SolverIntParam_MaxIters)) {
    s.computeResiduals();
    s.updateStatistics();
    const bool first = !(I.get(SolverIntParam_NumIter) > 0);
    if (!first && (I.get(SolverDoubleParam_DualityGap) < 0 || I.get(SolverDoubleParam_PrimalResidual) > P.get(SolverDoubleParam_SafeGuard)*s.prev_pres_)) {
      s.restoreBestIterate();
      s.exitcode_ = reduced(s, ExitCode::PrSearchDirection);
      break;
    }
    s.prev_pres_ = I.get(SolverDoubleParam_PrimalResidual);
    s.exitcode_ = s.convergenceCheck(PrecisionConvergence::Full);
    if (s.exitcode_ != ExitCode::NotConverged) { break; }
    if (!first && I.get(SolverDoubleParam_StepLength) == P.get(SolverDoubleParam_MinimumStepLength)*P.get(SolverDoubleParam_StepLengthScaling)) {
      s.restoreBestIterate();
      s.exitcode_ = reduced(s, ExitCode::PrSearchDirection);
      break;
    }
    if (I.get(SolverIntParam_NumIter) == P.get(SolverIntParam_MaxIters)) {
      if (!I.isBetterThan(s.best_optimization_info_)) { s.restoreBestIterate(); }
      s.exitcode_ = reduced(s, ExitCode::ReachMaxIters);
      break;
    }
    if (I.get(SolverIntParam_NumIter) == 0 || I.isBetterThan(s.best_optimization_info_)) { s.saveIterateAsBest(); }
    if (K.updateNTScalings(s.opt_.s(), s.opt_.z(), s.lambda_) == ConeStatus::Outside) {
      s.restoreBestIterate();
      s.exitcode_ = reduced(s, ExitCode::PrSlacksLeaveCone);
      break;
    }
    s.linear_solver_.updateMatrix();
    if (s.linear_solver_.numericFactorization() != FactStatus::Optimal) { s.exitcode_ = ExitCode::Indeterminate; break; }

    // affine direction
    I.get(SolverIntParam_NumRefsLinSolve) = s.linear_solver_.solve(s.rhs1_, s.dopt2_);
    s.rhsAffineStep();
    I.get(SolverIntParam_NumRefsLinSolveAffine) = s.linear_solver_.solve(s.rhs2_, s.dopt1_);
    s.dt_denom_ = s.opt_.kappa()/s.opt_.tau() - cbh(s, s.dopt2_);
    s.dt_affine_ = (s.residual_t_ - s.opt_.kappa() + cbh(s, s.dopt1_))/s.dt_denom_;
    s.dk_affine_ = -s.opt_.kappa() - s.opt_.kappa()*s.dt_affine_/s.opt_.tau();
    for (int i=0; i<K.sizecone_; i++) { s.dopt1_.z()[i] += s.dt_affine_*s.dopt2_.z()[i]; }
    s.W_times_dz_affine_ = K.W()*s.dopt1_.z();
    for (int i=0; i<K.sizecone_; i++) { s.ds_affine_by_W_[i] = -(s.W_times_dz_affine_[i] + s.lambda_[i]); }
    I.get(SolverDoubleParam_AffineStepLength) = s.lineSearch(s.ds_affine_by_W_, s.W_times_dz_affine_, s.opt_.tau(), s.dt_affine_, s.opt_.kappa(), s.dk_affine_);
    const double gap = 1.0 - I.get(SolverDoubleParam_AffineStepLength);
    I.get(SolverDoubleParam_CorrectionStepLength) = std::max(std::min(std::pow(gap, 3.0), P.get(SolverDoubleParam_MaximumCenteringStep)), P.get(SolverDoubleParam_MinimumCenteringStep));
    const double sigma = I.get(SolverDoubleParam_CorrectionStepLength), mu = I.get(SolverDoubleParam_MeritFunction);

    // combined direction
    s.ds_combined_ = s.lambda_*s.lambda_ + s.ds_affine_by_W_*s.W_times_dz_affine_ - sigma*mu;
    s.ds_affine_by_W_ = s.lambda_/s.ds_combined_;
    s.dz_combined_ = (sigma - 1.0)*s.res_.z() + K.W()*s.ds_affine_by_W_;
    s.dk_combined_ = s.opt_.kappa()*s.opt_.tau() + s.dk_affine_*s.dt_affine_ - sigma*mu;
    s.rhsCenteringPredictorStep();
    I.get(SolverIntParam_NumRefsLinSolveCorrector) = s.linear_solver_.solve(s.rhs2_, s.dopt1_);
    s.dopt1_.tau() = ((1 - sigma)*s.residual_t_ - s.dk_combined_/s.opt_.tau() + cbh(s, s.dopt1_))/s.dt_denom_;
    s.dopt1_.xyz() += s.dopt1_.tau()*s.dopt2_.xyz();
    s.W_times_dz_affine_ = K.W()*s.dopt1_.z();
    for (int i=0; i<K.sizecone_; i++) { s.ds_affine_by_W_[i] = -s.ds_affine_by_W_[i] - s.W_times_dz_affine_[i]; }
    s.dopt1_.kappa() = -(s.dk_combined_ + s.opt_.kappa()*s.dopt1_.tau())/s.opt_.tau();
    I.get(SolverDoubleParam_StepLength) = P.get(SolverDoubleParam_StepLengthScaling)*s.lineSearch(s.ds_affine_by_W_, s.W_times_dz_affine_, s.opt_.tau(), s.dopt1_.tau(), s.opt_.kappa(), s.dopt1_.kappa());
    s.dopt1_.s() = K.W()*s.ds_affine_by_W_;
    s.opt_ += I.get(SolverDoubleParam_StepLength)*s.dopt1_;
    I.get(SolverIntParam_NumIter)++;
  }
  s.equilibration_routine_.scaleVariables(s.opt_);
  return s.exitcode_;
}
}

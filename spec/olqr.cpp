// The iterative LQR solver: problem container, rollout, derivatives, backward recursion, iteration.
#include <fstream>
#include <yaml_utils/yaml_cpp_fwd.hpp>
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/SolverLqr.hpp>
using namespace solverlqr;
using namespace solver;
namespace spec {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef ControlBase U;
typedef StateBase X;

// ---------------------------------------------------------------- states and controls
//@ solverlqr::StateBase::operator*
X times(const X& x, double a) { X y; y.state_ = a * x.state_; return y; }
//@ solverlqr::StateBase::operator*=
X& scale(X& x, double a) { x.state_ = a * x.state_; return x; }
//@ solverlqr::StateBase::operator+
X plus(const X& x, const X& z) { X y; y.state_ = x.state_ + z.state_; return y; }
//@ solverlqr::StateBase::operator+=
X& increase(X& x, const X& z) { x.state_ = x.state_ + z.state_; return x; }
//@ solverlqr::StateBase::operator/
X over(const X& x, double a) { X y; y.state_ = x.state_ / a; return y; }
//@ solverlqr::StateBase::operator/=
X& shrink(X& x, double a) { x.state_ = x.state_ / a; return x; }
//@ solverlqr::StateBase::operator=
X& assign(X& x, const X& z) { x.state_ = z.state_; return x; }
//@ solverlqr::operator*/2 ~StateBase
X timesl(double a, const X& x) { X y; y.stateVector() = a * x.stateVector(); return y; }
//@ solverlqr::operator-
X minus(const X& a, const X& b) { X y; y.stateVector() = a.stateVector() - b.stateVector(); return y; }

//@ solverlqr::ControlBase::ControlBase/2
void control(U& u, int xdim, int udim)
{
  u.feedforward_ = V::Zero(udim);
  u.feedback_ = M::Zero(udim, xdim);
}
//@ solverlqr::ControlBase::operator=
U& assign(U& u, const U& v) { u.feedback_ = v.feedback_; u.feedforward_ = v.feedforward_; return u; }
// scaling and adding act on the feedforward; the feedback of a sum is that of the second operand
//@ solverlqr::ControlBase::operator*
U times(const U& u, double a) { U r; r.feedback_ = u.feedback_; r.feedforward_ = a * u.feedforward_; return r; }
//@ solverlqr::ControlBase::operator*=
U& scale(U& u, double a) { u.feedforward_ = a * u.feedforward_; return u; }
//@ solverlqr::ControlBase::operator+
U plus(const U& u, const U& v) { U r; r.feedback_ = v.feedback_; r.feedforward_ = u.feedforward_ + v.feedforward_; return r; }
//@ solverlqr::ControlBase::operator+=
U& increase(U& u, const U& v) { u.feedback_ = v.feedback_; u.feedforward_ = u.feedforward_ + v.feedforward_; return u; }

//@ solverlqr::StateSequence::resize
void resize(StateSequence& s, int tdim, int xdim)
{
  s.stateseq_.clear();
  for (int k = 0; k < tdim; ++k)
    s.stateseq_.push_back(X(xdim));
}
//@ solverlqr::ControlSequence::resize
void resize(ControlSequence& s, int tdim, int xdim, int udim)
{
  s.controlseq_.clear();
  for (int k = 0; k < tdim; ++k)
    s.controlseq_.push_back(U(xdim, udim));
}
//@ solverlqr::ControlSequence::operator=
ControlSequence& assign(ControlSequence& s, const ControlSequence& z)
{
  s.resize(z.size(), z.control(0).feedback().cols(), z.control(0).feedback().rows());
  for (int k = 0; k < z.size(); ++k) {
    s.controlseq_[k].feedback_ = z.controlseq_[k].feedback_;
    s.controlseq_[k].feedforward_ = z.controlseq_[k].feedforward_;
  }
  return s;
}
//@ solverlqr::ControlSequence::operator*=
ControlSequence& scale(ControlSequence& s, double a)
{
  for (int k = 0; k < s.size(); ++k)
    s.controlseq_[k].feedforward_ = a * s.controlseq_[k].feedforward_;
  return s;
}
//@ solverlqr::ControlSequence::operator+=
ControlSequence& increase(ControlSequence& s, const ControlSequence& z)
{
  for (int k = 0; k < s.size(); ++k) {
    s.controlseq_[k].feedback_ = z.controlseq_[k].feedback_;
    s.controlseq_[k].feedforward_ = s.controlseq_[k].feedforward_ + z.controlseq_[k].feedforward_;
  }
  return s;
}
//@ solverlqr::ControlSequence::operator*
ControlSequence times(const ControlSequence& s, double a)
{
  ControlSequence r = s;
  for (int k = 0; k < s.size(); ++k)
    r.controlseq_[k].feedforward_ = a * r.controlseq_[k].feedforward_;
  return r;
}

//@ solverlqr::operator*/2 ~ControlSequence
ControlSequence timesl(double a, const ControlSequence& s)
{
  ControlSequence r = s;
  for (int k = 0; k < s.size(); ++k)
    r.controlseq_[k].feedforward_ = a * r.controlseq_[k].feedforward_;
  return r;
}

//@ solverlqr::operator*/2 ~ControlBase as control
U timesl(double a, const U& u) { U r; r.feedback_ = u.feedback_; r.feedforward_ = a * u.feedforward_; return r; }

//@ solverlqr::ControlSequence::operator+
ControlSequence plus(const ControlSequence& s, const ControlSequence& z)
{
  ControlSequence r = s;
  for (int k = 0; k < r.size(); ++k) {
    r.controlseq_[k].feedback_ = z.controlseq_[k].feedback_;
    r.controlseq_[k].feedforward_ = r.controlseq_[k].feedforward_ + z.controlseq_[k].feedforward_;
  }
  return r;
}

//@ solverlqr::ControlSequence::controlSequenceGradientNorm
double gradientNorm(const ControlSequence& a, const ControlSequence& b)
{
  double sum = 0.0;
  for (int k = 0; k < a.size(); ++k)
    sum += (a.control(k).feedforward().array().abs() / (1. + b.control(k).feedforward().array().abs())).matrix().maxCoeff();
  return sum / a.size();
}

// ---------------------------------------------------------------- problem
//@ solverlqr::OcpBase::initialize
void initialize(OcpBase& o, const SolverLqrSetting& set)
{
  o.setting_ = &set;
  const int n = set.get(SolverLqrIntParam_TimeDimension), nx = set.get(SolverLqrIntParam_StateDimension), nu = set.get(SolverLqrIntParam_ControlDimension);
  o.stateseq_.resize(n + 1, nx);
  o.controlseq_.resize(n, nx, nu);
  o.configure(set.get(SolverLqrYamlParam_UserParameters));
}

//@ solverlqr::OcpBase::internal_dynamics
void step(OcpBase& o, const X& x, const U& u, X& next, int t)
{
  X a = o.dynamics(x, u, t);
  if (o.getLqrSetting().get(SolverLqrBoolParam_UseRungeKuttaIntegration)) {
    X b = o.dynamics(x + 0.5*a, u, t);
    X c = o.dynamics(x + 0.5*b, u, t);
    X d = o.dynamics(x + c, u, t);
    next.stateVector() = x.stateVector() + (a.stateVector() + 2.0*b.stateVector() + 2.0*c.stateVector() + d.stateVector())/6.0;
  } else
    next.stateVector() = x.stateVector() + a.stateVector();
}

// ---------------------------------------------------------------- rollout
//@ solverlqr::ForwardPass::initialize
void initialize(ForwardPass& p, OcpBase* o, const SolverLqrSetting& set) { p.stgs_ = &set; p.ocp_ = o; }

//@ solverlqr::ForwardPass::applyController
void rollout(ForwardPass& p, const StateSequence& xn, const ControlSequence& un)
{
  OcpBase& o = *p.ocp_;
  const SolverLqrSetting& set = *p.stgs_;
  const int n = o.tdim();
  p.has_diverged_ = false;
  p.new_state_seq_ = xn;
  p.new_control_seq_ = un;
  p.timestep_cost_.resize(n + 1);
  for (int t = 0; t < n; ++t) {
    V& u = p.new_control_seq_.control(t).feedforward();
    X& x = p.new_state_seq_.state(t);
    p.dx_.stateVector() = x.stateVector() - xn.state(t).stateVector();
    u = un.control(t).feedforward() + un.control(t).feedback() * (x.stateVector() - xn.state(t).stateVector());
    if (set.get(SolverLqrBoolParam_HasControlLimits))
      for (int i = 0; i < o.udim(); ++i) {
        const double hi = set.get(SolverLqrVectorParam_MaxControlLimits)[i], lo = set.get(SolverLqrVectorParam_MinControlLimits)[i];
        if (u[i] >= hi)
          u[i] = hi;
        if (u[i] <= lo)
          u[i] = lo;
      }
    o.internal_dynamics(x, p.new_control_seq_.control(t), p.new_state_seq_.state(t+1), t);
    p.timestep_cost_[t] = o.objective(x, p.new_control_seq_.control(t), t, false);
    const V& y = p.new_state_seq_.state(t+1).stateVector();
    for (int i = 0; i < y.size(); ++i)
      if (std::abs(y[i]) > set.get(SolverLqrDoubleParam_DivergenceLimitCheck)) {
        p.has_diverged_ = true;
        break;
      }
  }
  p.timestep_cost_[n] = o.objective(p.new_state_seq_.state(n), U(o.xdim(), o.udim()), n, true);
  p.new_cost_ = p.timestep_cost_.sum();
}

// ---------------------------------------------------------------- backward recursion
//@ solverlqr::BackwardPass::optimizeController
void backward(BackwardPass& p, const ForwardPass& f, const FiniteDifferences& d, double lambda)
{
  const int n = p.tdim_;
  p.dV_.setZero();
  p.diverge_flag_ = false;
  p.diverge_iteration_ = -1;
  p.V_[n] = f.timestepCost(n);
  p.Vx_[n] = d.cx(n);
  p.Vxx_[n] = d.cxx(n);
  for (int t = n-1; t >= 0; --t) {
    const V vx = p.Vx_[t+1];
    const M vxx = p.Vxx_[t+1];
    const double v = p.V_[t+1];
    const M A = d.fx(t), B = d.fu(t);
    V Qu = d.cu(t) + B.transpose()*vx;
    M Qux = d.cxu(t).transpose() + B.transpose()*vxx*A;
    M Quu = d.cuu(t) + B.transpose()*vxx*B + lambda*M::Identity(p.udim_, p.udim_);
    p.llt_.compute(Quu);
    if (p.llt_.info() != Eigen::ComputationInfo::Success) {
      p.diverge_flag_ = true;
      p.diverge_iteration_ = t;
      break;
    }
    V k = -p.llt_.solve(Qu);
    M K = -p.llt_.solve(Qux);
    p.control_seq_.control(t).feedforward() = k;
    p.control_seq_.control(t).feedback() = K;
    if (p.getLqrSetting().get(SolverLqrBoolParam_HasControlLimits))
      p.findConstrainedControls(t, p.llt_.matrixL(), Qu);
    p.V_[t] = f.timestepCost(t) + v + k.transpose()*Qu + 0.5*k.transpose()*Quu*k;
    p.Vx_[t] = d.cx(t).transpose() + vx.transpose()*A + k.transpose()*Quu*K + k.transpose()*Qux + Qu.transpose()*K;
    M S = d.cxx(t) + A.transpose()*vxx*A + K.transpose()*Quu*K + K.transpose()*Qux + Qux.transpose()*K;
    p.Vxx_[t] = 0.5*(S + S.transpose());
  }
}

//@ solverlqr::BackwardPass::findConstrainedControls
void constrained(BackwardPass& p, int t, const M& L, const V& g)
{
  const V& nom = p.getOcp().controlSeq().control(t).feedforward();
  const V& hi = p.getLqrSetting().get(SolverLqrVectorParam_MaxControlLimits);
  const V& lo = p.getLqrSetting().get(SolverLqrVectorParam_MinControlLimits);
  p.vars_.clear();
  p.model_.clean();
  for (int i = 0; i < p.udim_; ++i) {
    p.vars_.push_back(Var());
    p.vars_[i] = p.model_.addVar(VarType::Continuous, 0.0, 1.0, 0.5);
  }
  // 1/2 |L' v|^2 + g' v
  p.quad_expr_.clear();
  for (int j = 0; j < p.udim_; ++j) {
    p.lin_expr_ = 0.0;
    for (int i = 0; i < p.udim_; ++i)
      p.lin_expr_ += L(i,j)*p.vars_[i];
    p.quad_expr_.addQuaTerm(0.5, p.lin_expr_);
    p.quad_expr_.addLinTerm(g[j]*p.vars_[j]);
  }
  p.model_.setObjective(p.quad_expr_, 0.0);
  for (int i = 0; i < p.udim_; ++i) {
    p.model_.addLinConstr(nom[i] + p.vars_[i], ">", lo[i]);
    p.model_.addLinConstr(nom[i] + p.vars_[i], "<", hi[i]);
  }
  p.model_.optimize();
  for (int i = 0; i < p.udim_; ++i)
    p.control_seq_.control(t).feedforward()[i] = p.vars_[i].get(SolverDoubleParam_X);
  // controls at a limit do not react to the state
  for (int i = 0; i < p.udim_; ++i) {
    const double u = nom[i] + p.control_seq_.control(t).feedforward()[i];
    if (u >= hi[i] - 0.01 || u <= lo[i] + 0.01)
      p.control_seq_.control(t).feedback().row(i).setZero();
  }
}

//@ solverlqr::BackwardPass::initialize
void initialize(BackwardPass& p, OcpBase* o, const SolverLqrSetting& set)
{
  const int n = o->tdim(), nx = o->xdim(), nu = o->udim();
  p.ocp_ = o;
  p.stgs_ = &set;
  p.tdim_ = n;
  p.xdim_ = nx;
  p.udim_ = nu;
  p.is_initialized_ = true;
  p.control_seq_.resize(n, nx, nu);
  p.V_ = V::Zero(n+1);
  p.Qu_ = V::Zero(nu);
  p.Qx_ = V::Zero(nx);
  p.Qxx_ = M::Zero(nx, nx);
  p.Qxu_ = M::Zero(nx, nu);
  p.Quu_ = M::Zero(nu, nu);
  p.VxxR_ = M::Zero(nx, nx);
  p.QxuR_ = M::Zero(nx, nu);
  p.QuuR_ = M::Zero(nu, nu);
  for (int t = 0; t < n + 1; ++t) {
    p.Vx_.push_back(V::Zero(nx));
    p.Vxh_.push_back(V::Zero(nx));
    p.Vxx_.push_back(M::Zero(nx, nx));
    p.Vxxh_.push_back(M::Zero(nx, nx));
    p.Vxhxh_.push_back(M::Zero(nx, nx));
  }
  p.model_.getSetting().initialize(CFG_PATH + std::string("default_solver_env.yaml"));
}

// ---------------------------------------------------------------- derivatives
//@ solverlqr::FiniteDifferences::initialize
void initialize(FiniteDifferences& d, OcpBase* o, bool c1, bool f1, bool c2, bool f2)
{
  const int n = o->tdim(), nx = o->xdim(), nu = o->udim();
  d.is_initialized_ = true;
  d.ocp_ = o;
  d.compute_objective_first_derivatives_ = c1;
  d.compute_objective_second_derivatives_ = c2;
  d.compute_dynamics_first_derivatives_ = f1;
  d.compute_dynamics_second_derivatives_ = f2;
  d.tdim_ = n;
  d.xdim_ = nx;
  d.udim_ = nu;
  d.cx_seq_.clear();
  d.cu_seq_.clear();
  d.cxx_seq_.clear();
  d.cxu_seq_.clear();
  d.cuu_seq_.clear();
  d.fx_seq_.clear();
  d.fu_seq_.clear();
  d.fxx_seq_.clear();
  d.fxu_seq_.clear();
  d.fuu_seq_.clear();
  std::vector<M> fxx, fxu, fuu;
  for (int i = 0; i < nx; ++i)
    fxx.push_back(M::Zero(nx, nx));
  for (int i = 0; i < nu; ++i)
    fxu.push_back(M::Zero(nx, nx));
  for (int i = 0; i < nu; ++i)
    fuu.push_back(M::Zero(nx, nu));
  for (int t = 0; t < n; ++t) {
    d.fx_seq_.push_back(M::Zero(nx, nx));
    d.fu_seq_.push_back(M::Zero(nx, nu));
    d.fxx_seq_.push_back(fxx);
    d.fxu_seq_.push_back(fxu);
    d.fuu_seq_.push_back(fuu);
  }
  for (int t = 0; t <= n; ++t) {
    d.cx_seq_.push_back(V::Zero(nx));
    d.cu_seq_.push_back(V::Zero(nu));
    d.cxx_seq_.push_back(M::Zero(nx, nx));
    d.cxu_seq_.push_back(M::Zero(nx, nu));
    d.cuu_seq_.push_back(M::Zero(nu, nu));
  }
}

//@ solverlqr::FiniteDifferences::computeDerivatives
void derivatives(FiniteDifferences& d)
{
  if (!d.is_initialized_)
    return;
  if (d.compute_dynamics_first_derivatives_) d.computeDynamicsFirstDerivatives();
  if (d.compute_dynamics_second_derivatives_) d.computeDynamicsSecondDerivatives();
  if (d.compute_objective_first_derivatives_) d.computeObjectiveFirstDerivatives();
  if (d.compute_objective_second_derivatives_) d.computeObjectiveSecondDerivatives();
}

static V plus(V x, int i, double h) { x[i] += h; return x; }
static V step(FiniteDifferences& d, const V& x, const V& u, const U& law, int t)
{
  X a(d.xdim_), y(d.xdim_);
  U b(d.xdim_, d.udim_);
  a.stateVector() = x;
  b.feedback() = law.feedback();
  b.feedforward() = u;
  d.ocp_->internal_dynamics(a, b, y, t);
  return y.stateVector();
}
static double cost(FiniteDifferences& d, const V& x, const V& u, const U& law, int t)
{
  X a(d.xdim_);
  U b(d.xdim_, d.udim_);
  a.stateVector() = x;
  b.feedback() = law.feedback();
  b.feedforward() = u;
  return d.ocp_->objective(a, b, t, t == d.tdim_);
}

//@ solverlqr::FiniteDifferences::computeDynamicsFirstDerivatives
void dyn1(FiniteDifferences& d)
{
  const double h = d.h_devs_;
  for (int t = 0; t < d.tdim_; ++t) {
    const U& law = d.ocp_->controlSeq().control(t);
    const V x = d.ocp_->stateSeq().state(t).stateVector();
    const V u = law.feedforward();
    for (int i = 0; i < d.xdim_; ++i)
      d.fx_seq_[t].col(i) = (step(d, plus(x,i,h), u, law, t) - step(d, plus(x,i,-h), u, law, t)) / (2.*h);
    for (int i = 0; i < d.udim_; ++i)
      d.fu_seq_[t].col(i) = (step(d, x, plus(u,i,h), law, t) - step(d, x, plus(u,i,-h), law, t)) / (2.*h);
  }
}

//@ solverlqr::FiniteDifferences::computeObjectiveFirstDerivatives
void obj1(FiniteDifferences& d)
{
  const double h = d.h_devs_;
  U law(d.xdim_, d.udim_);
  for (int t = 0; t <= d.tdim_; ++t) {
    const V x = d.ocp_->stateSeq().state(t).stateVector();
    if (t < d.tdim_) law = d.ocp_->controlSeq().control(t);
    else law.setZero();
    const V u = law.feedforward();
    for (int i = 0; i < d.xdim_; ++i)
      d.cx_seq_[t](i) = (cost(d, plus(x,i,h), u, law, t) - cost(d, plus(x,i,-h), u, law, t)) / (2.*h);
    for (int i = 0; i < d.udim_; ++i)
      d.cu_seq_[t](i) = (cost(d, x, plus(u,i,h), law, t) - cost(d, x, plus(u,i,-h), law, t)) / (2.*h);
  }
}

// ---------------------------------------------------------------- iteration
//@ solverlqr::SolverLqr::initialize
void initialize(SolverLqr& s, OcpBase* o, SolverLqrSetting& set)
{
  s.setting_ = &set;
  s.ocp_ = o;
  s.getPrinter().initialize(set);
  s.getForwPass().initialize(o, set);
  s.getBackPass().initialize(o, set);
  s.getFiniteDiff().initialize(o, true, true, true, false);
}

//@ solverlqr::SolverLqr::optimize
void optimize(SolverLqr& s)
{
  const SolverLqrSetting& set = *s.setting_;
  LqrOptimizationInfo& info = s.getLqrInfo();
  OcpBase& o = *s.ocp_;
  ForwardPass& f = s.getForwPass();
  BackwardPass& b = s.getBackPass();
  const V& steps = set.get(SolverLqrVectorParam_LineSearchCoeffs);
  double& lam = info.get(SolverLqrDoubleParam_CurrentRegularization);
  double& cost = info.get(SolverLqrDoubleParam_Cost);
  double& change = info.get(SolverLqrDoubleParam_CostChange);
  int& it = info.get(SolverLqrIntParam_CurrentIteration);
  const double factor = set.get(SolverLqrDoubleParam_BackPassMultRegularizationIncr), least = set.get(SolverLqrDoubleParam_BackPassMinRegularization), most = set.get(SolverLqrDoubleParam_BackPassMaxRegularization);

  lam = set.get(SolverLqrDoubleParam_BackPassInitialRegularization);
  s.mult_regularization_change_ = set.get(SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr);

  // the largest step at which the initial controls do not diverge
  for (int i = 0; i < steps.size(); ++i) {
    s.linesearch_coeff_ = steps[i];
    f.applyController(o.stateSeq(), s.linesearch_coeff_*o.controlSeq());
    cost = f.newCost();
    if (f.hasDiverged())
      continue;
    o.stateSeq() = f.stateSeq();
    o.controlSeq() = f.controlSeq();
    break;
  }
  if (f.hasDiverged()) {
    s.converged_ = false;
    return;
  }

  s.devs_flag_ = true;
  info.get(SolverLqrDoubleParam_ExpectedCost) = 0.0;
  for (it = 0; it < set.get(SolverLqrIntParam_LqrMaxIterations); ++it) {
    // derivatives are recomputed exactly when the trajectory has changed
    if (s.devs_flag_) {
      s.getFiniteDiff().computeDerivatives();
      s.devs_flag_ = false;
    }

    // regularise until the recursion succeeds or the limit is reached
    s.backpass_flag_ = false;
    while (!s.backpass_flag_) {
      b.optimizeController(f, s.getFiniteDiff(), lam);
      s.backpass_flag_ = true;
      if (b.hasDiverged()) {
        s.backpass_flag_ = false;
        info.get(SolverLqrIntParam_BackpassDivergeIteration) = b.divergeIteration();
        s.mult_regularization_change_ = std::max(factor, factor*s.mult_regularization_change_);
        lam = std::max(least, s.mult_regularization_change_*lam);
        if (lam > most)
          break;
      }
    }

    double& grad = info.get(SolverLqrDoubleParam_ControlGradient);
    grad = ControlSequence::controlSequenceGradientNorm(b.controlSeq(), o.controlSeq());
    if (grad < set.get(SolverLqrDoubleParam_ControlGradientTolerance) && s.backpass_flag_)
      break;

    // the first step that lowers the cost without diverging
    s.forwpass_flag_ = false;
    if (s.backpass_flag_)
      for (int i = 0; i < steps.size(); ++i) {
        s.linesearch_coeff_ = steps[i];
        f.applyController(o.stateSeq(), o.controlSeq() + s.linesearch_coeff_*b.controlSeq());
        change = cost - f.newCost() - 1e10*f.hasDiverged();
        info.get(SolverLqrDoubleParam_ExpectedCost) = std::max(-Eigen::Vector2d(steps[i], std::pow(steps[i], 2.)).dot(b.dV()), .0);
        if (change > 0.0) {
          s.forwpass_flag_ = true;
          break;
        }
      }

    if (!s.forwpass_flag_) {
      s.mult_regularization_change_ = std::max(factor, factor*s.mult_regularization_change_);
      lam = std::max(least, s.mult_regularization_change_*lam);
      if (lam > most)
        break;
      continue;
    }
    if (s.linesearch_coeff_ > steps.minCoeff()) {
      s.mult_regularization_change_ = std::min(1./factor, s.mult_regularization_change_/factor);
      lam = lam*s.mult_regularization_change_*(lam > least);
    }
    s.devs_flag_ = true;
    cost = f.newCost();
    o.stateSeq() = f.stateSeq();
    o.controlSeq() = f.controlSeq();
    if (std::abs(change) < set.get(SolverLqrDoubleParam_CostChangeTolerance))
      break;
  }
  if (set.get(SolverLqrBoolParam_StoreData))
    s.storeSolution();
}


// ---------------------------------------------------------------- files
//@ solverlqr::SolverLqr::loadSolution
void load(SolverLqr& s, const std::string& name)
{
  YAML::Node in = YAML::LoadFile(name.c_str());
  for (int t = 0; t < s.ocp_->tdim(); ++t)
    s.ocp_->controlSeq().control(t).feedback() = in["solverlqr_variables"]["control_fb_" + std::to_string(t)].as<M>();
}

}

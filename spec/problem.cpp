// The conic problem: minimise c'x subject to A x = b, h - G x in the product of a positive orthant and second-order cones.
#include <cmath>
#include <stdexcept>
#include <solver/interface/ConicProblem.hpp>
#include <solver/interface/Model.hpp>
using namespace solver;
namespace spec {
//@ solver::ConicProblem::addVar
Var addVar(ConicProblem& p, const VarType& type, double lb, double ub, double guess)
{
  if (ub < lb) { throw std::runtime_error("Invalid assertion LB <= UB"); }
  double start = guess < lb ? lb : (guess > ub ? ub : guess);
  Var v(p.vars_.size(), type, lb, ub, start);
  p.vars_.push_back(std::make_shared<Var>(v));
  if (type == VarType::Binary) {
    p.bin_vars_.push_back(std::make_shared<Var>(v));
    p.bin_vars_lower_bound_.resize(p.bin_vars_.size());
    p.bin_vars_lower_bound_.setZero();
    p.bin_vars_upper_bound_.resize(p.bin_vars_.size());
    p.bin_vars_upper_bound_.setOnes();
  }
  return v;
}
//@ solver::ConicProblem::addLinConstr
void addLinConstr(ConicProblem& p, const LinExpr& lhs, const std::string sense, const LinExpr& rhs)
{
  if (sense != "=" && sense != "<" && sense != ">") { throw std::runtime_error("Invalid sense on Linear Constraint"); }
  if (sense == "=") p.leqcons_.push_back(lhs-rhs);
  if (sense == "<") p.lineqcons_.push_back(lhs-rhs);
  if (sense == ">") p.lineqcons_.push_back(rhs-lhs);
}
//@ solver::ConicProblem::addQuaConstr
void addQuaConstr(ConicProblem& p, const DCPQuadExpr& q, const std::string sense, const LinExpr& l, const QuadConstrApprox& approx)
{
  if (!(sense == "<")) { throw std::runtime_error("Invalid sense on Quadratic Constraint"); }
  DCPQuadExpr r = q;
  r.lexpr_ = q.lexpr_ - l;
  if (approx == QuadConstrApprox::TrustRegion) { r.trust_region_ = true; p.numTrustRegions_++; }
  if (approx == QuadConstrApprox::SoftConstraint) { r.soft_constraint_ = true; p.numSoftConstraints_++; }
  for (size_t i=0; i<r.coeffs_.size(); i++) { r.extra_vars_.push_back(p.addVar(VarType::Continuous, 0.0, 1.0, 0.5)); }
  if (approx == QuadConstrApprox::SoftConstraint) { r.extra_vars_.push_back(p.addVar(VarType::Continuous, 0.0, 1.0, 0.5)); }
  p.qineqcons_.push_back(r);
}
//@ solver::ConicProblem::addSocConstr
void addSocConstr(ConicProblem& p, const DCPQuadExpr& q, const std::string sense, const LinExpr& l)
{
  if (!(sense == "<")) { throw std::runtime_error("Invalid sense on Second-Order Cone Constraint"); }
  DCPQuadExpr r = q;
  r.trust_region_ = false;
  r.lexpr_ = q.lexpr_ - l;
  r.extra_vars_.push_back(p.addVar(VarType::Continuous, 0.0, 1.0, 0.5));
  p.soccons_.push_back(r);
}
//@ solver::ConicProblem::setObjective
void setObjective(ConicProblem& p, const DCPQuadExpr& q, const LinExpr& l)
{
  p.objective_.extra_vars_.clear();
  p.objective_.coeffs_ = q.coeffs_;
  p.objective_.qexpr_ = q.qexpr_;
  p.objective_.lexpr_ = q.lexpr_ + l;
  for (size_t i=0; i<q.coeffs_.size(); i++) { p.objective_.extra_vars_.push_back(p.addVar(VarType::Continuous, 0.0, 1.0, 0.5)); }
}
//@ solver::ConicProblem::clean
void clean(ConicProblem& p)
{
  p.bin_vars_.clear(); p.vars_.clear();
  p.objective_.clear();
  p.leqcons_.clear(); p.lineqcons_.clear(); p.qineqcons_.clear(); p.soccons_.clear();
  p.numSoftConstraints_ = p.numTrustRegions_ = 0;
}
//@ solver::ConicProblem::solveProblem
ExitCode solveProblem(ConicProblem& p)
{
  const int n = p.vars_.size();
  if (p.bin_vars_.size() == 0 || p.numTrustRegions_ != 0 || p.numSoftConstraints_ != 0) {
    ExitCode r = p.ip_solver_.optimize();
    for (int i=0; i<n; i++) { p.vars_[i]->set(SolverDoubleParam_X, p.ip_solver_.optimalVector().x()[i]); }
    return r;
  }
  p.bnb_solver_.initialize(p.ip_solver_, p.bin_vars_);
  ExitCode r = p.bnb_solver_.optimize();
  for (int i=0; i<n; i++) { p.vars_[i]->set(SolverDoubleParam_X, p.bnb_solver_.optimalVector().x()[i]); }
  return r;
}
//@ solver::ConicProblem::optimize
ExitCode optimize(ConicProblem& p)
{
  SolverSetting& s = p.stgs_;
  p.exit_code_ = ExitCode::Indeterminate;
  if (s.get(SolverIntParam_WarmStartIters) > 0 && (p.numTrustRegions_ > 0 || p.numSoftConstraints_ > 0)) {
    s.set(SolverIntParam_MaxIters, s.get(SolverIntParam_WarmStartIters));
    p.buildProblem(0, true);
    p.exit_code_ = p.solveProblem();
  }
  if (s.get(SolverIntParam_SolverMaxIters) > 0) {
    s.set(SolverIntParam_MaxIters, s.get(SolverIntParam_SolverMaxIters));
    p.buildProblem(1, false);
    p.exit_code_ = p.solveProblem();
  }
  if (s.get(SolverIntParam_NumberRefinementsTrustRegion) > 0 && (p.numTrustRegions_ > 0 || p.numSoftConstraints_ > 0)) {
    for (int r=1; r<=s.get(SolverIntParam_NumberRefinementsTrustRegion); r++) {
      s.set(SolverIntParam_MaxIters, s.get(SolverIntParam_SolverMaxIters));
      p.buildProblem(r+1, false);
      p.exit_code_ = p.solveProblem();
    }
  }
  return p.exit_code_;
}
//@ solver::Model::optimize
ExitCode modelOptimize(Model& m)
{
  ConicProblem& p = m.conic_problem_;
  if (p.bin_vars_.size() == 0 || (p.numTrustRegions_ <= 0 && p.numSoftConstraints_ <= 0)) { return p.optimize(); }
  m.ncvx_bnb_solver_.initialize(p);
  ExitCode r = m.ncvx_bnb_solver_.optimize();
  for (size_t i=0; i<p.vars_.size(); i++) { p.vars_[i]->set(SolverDoubleParam_X, p.ip_solver_.optimalVector().x()[i]); }
  return r;
}

typedef Eigen::Triplet<double> Coeff;
static int col(const Var& v) { return v.get(SolverIntParam_ColNum); }
static double at(const Var& v) { return v.get(SolverDoubleParam_X); }

//@ solver::ConicProblem::buildProblem
void buildProblem(ConicProblem& p, int iter, bool warm)
{
  SolverStorage& st = p.stg_;
  const std::vector<DCPQuadExpr>& Q = p.qineqcons_;
  const std::vector<DCPQuadExpr>& S = p.soccons_;
  const DCPQuadExpr& f = p.objective_;
  const int nb = p.bin_vars_.size(), nl = p.lineqcons_.size(), nq = Q.size(), ns = S.size();

  p.numTrustRegions_ = 0;
  p.numSoftConstraints_ = 0;
  int cones = f.extra_vars_.size() + ns;
  for (int i=0; i<nq; i++) {
    cones += Q[i].coeffs_.size();
    if (Q[i].trust_region_) p.numTrustRegions_ += 1;
    if (Q[i].soft_constraint_) p.numSoftConstraints_ += 1;
    if (Q[i].soft_constraint_ && !warm) cones += 1;
  }
  Eigen::VectorXi q(cones); q.setConstant(3);
  for (int i=0; i<ns; i++) { q.tail(ns)[i] = S[i].coeffs_.size()+1; }
  p.cone_.initialize(p.vars_.size(), p.leqcons_.size(), 2.0*nb + nl + nq + ns + (warm == true ? 0 : p.numTrustRegions_), q);
  st.initialize(p.cone_, p.stgs_);
  st.cleanCoeffs();

  // A x = b
  for (size_t i=0; i<p.leqcons_.size(); i++) {
    const LinExpr& e = p.leqcons_[i];
    for (size_t k=0; k<e.vars_.size(); k++) { st.addCoeff(Coeff(i, col(e.vars_[k]), e.coeffs_[k]), true); }
    st.b()[i] = -e.constant_;
  }
  // bounds of the binary variables: -x <= lower, x <= upper
  for (int i=0; i<nb; i++) {
    st.addCoeff(Coeff(2*i, col(*p.bin_vars_[i]), -1.0), false);
    st.h()[2*i] = p.bin_vars_lower_bound_[i];
    st.addCoeff(Coeff(2*i+1, col(*p.bin_vars_[i]), 1.0), false);
    st.h()[2*i+1] = p.bin_vars_upper_bound_[i];
  }
  // linear inequalities
  const int rl = 2*nb;
  for (int i=0; i<nl; i++) {
    const LinExpr& e = p.lineqcons_[i];
    for (size_t k=0; k<e.vars_.size(); k++) { st.addCoeff(Coeff(rl+i, col(e.vars_[k]), e.coeffs_[k]), false); }
    st.h()[rl+i] = -e.constant_;
  }
  // quadratic inequalities: sum_k coeff_k t_k + linear <= 0 with t_k above the squares
  const int rq = rl+nl;
  for (int i=0; i<nq; i++) {
    for (size_t k=0; k<Q[i].coeffs_.size(); k++) { st.addCoeff(Coeff(rq+i, col(Q[i].extra_vars_[k]), Q[i].coeffs_[k]), false); }
    for (size_t k=0; k<Q[i].lexpr_.vars_.size(); k++) { st.addCoeff(Coeff(rq+i, col(Q[i].lexpr_.vars_[k]), Q[i].lexpr_.coeffs_[k]), false); }
    st.h()[rq+i] = -Q[i].lexpr_.constant_;
  }
  // cone constraints: t + linear <= 0 with t above the norm
  const int rs = rq+nq;
  for (int i=0; i<ns; i++) {
    st.addCoeff(Coeff(rs+i, col(S[i].extra_vars_[0]), 1.0), false);
    for (size_t k=0; k<S[i].lexpr_.vars_.size(); k++) { st.addCoeff(Coeff(rs+i, col(S[i].lexpr_.vars_[k]), S[i].lexpr_.coeffs_[k]), false); }
    st.h()[rs+i] = -S[i].lexpr_.constant_;
  }
  // linear objective
  for (size_t k=0; k<f.lexpr_.vars_.size(); k++) { st.c()[col(f.lexpr_.vars_[k])] = f.lexpr_.coeffs_[k]; }
  // trust regions: linearisation of the reversed constraint around the last solution, within threshold^iter
  const int rt = rs+ns;
  if (!warm) {
    int n = 0;
    for (int i=0; i<nq; i++) {
      if (Q[i].trust_region_) {
        st.h()[rt+n] = 0.0;
        for (size_t j=0; j<Q[i].qexpr_.size(); j++) {
          const LinExpr& e = Q[i].qexpr_[j];
          for (size_t k=0; k<e.vars_.size(); k++) {
            const double slope = 2.0*Q[i].coeffs_[j]*e.getValue()*e.coeffs_[k];
            st.addCoeff(Coeff(rt+n, col(e.vars_[k]), -slope), false);
            st.h()[rt+n] -= slope*at(e.vars_[k]);
          }
        }
        for (size_t k=0; k<Q[i].lexpr_.vars_.size(); k++) { st.addCoeff(Coeff(rt+n, col(Q[i].lexpr_.vars_[k]), -Q[i].lexpr_.coeffs_[k]), false); }
        st.h()[rt+n] += Q[i].getValue() + Q[i].lexpr_.constant_ + std::pow(p.stgs_.get(SolverDoubleParam_TrustRegionThreshold), iter);
        n++;
      }
    }
  }
  // objective squares: (1+t, 1-t, 2 e) in a three-dimensional cone
  const int ro = rt + (warm ? 0 : p.numTrustRegions_);
  for (size_t j=0; j<f.extra_vars_.size(); j++) {
    const int r = ro+3*j;
    st.addCoeff(Coeff(r, col(f.extra_vars_[j]), -1.0), false);
    st.addCoeff(Coeff(r+1, col(f.extra_vars_[j]), -1.0), false);
    for (size_t k=0; k<f.qexpr_[j].vars_.size(); k++) { st.addCoeff(Coeff(r+2, col(f.qexpr_[j].vars_[k]), -2.0*f.qexpr_[j].coeffs_[k]), false); }
    st.h()[r] = 1.0;
    st.h()[r+1] = -1.0;
    st.h()[r+2] = 2.0*f.qexpr_[j].constant_;
    st.c()[col(f.extra_vars_[j])] = f.coeffs_[j];
  }
  // soft constraints: the square of the linearised violation, weighted in the objective
  const int rf = ro + 3*f.extra_vars_.size();
  if (!warm) {
    int n = 0;
    for (int i=0; i<nq; i++) {
      if (Q[i].soft_constraint_) {
        const int r = rf+3*n;
        st.h()[r] = 1.0;
        st.h()[r+1] = -1.0;
        st.h()[r+2] = 0.0;
        st.addCoeff(Coeff(r, col(Q[i].extra_vars_.back()), -1.0), false);
        st.addCoeff(Coeff(r+1, col(Q[i].extra_vars_.back()), -1.0), false);
        for (size_t j=0; j<Q[i].qexpr_.size(); j++) {
          const LinExpr& e = Q[i].qexpr_[j];
          for (size_t k=0; k<e.vars_.size(); k++) {
            const double slope = 2.0*Q[i].coeffs_[j]*e.getValue()*e.coeffs_[k];
            st.addCoeff(Coeff(r+2, col(e.vars_[k]), -2.0*slope), false);
            st.h()[r+2] -= slope*at(e.vars_[k]);
          }
        }
        for (size_t k=0; k<Q[i].lexpr_.vars_.size(); k++) { st.addCoeff(Coeff(r+2, col(Q[i].lexpr_.vars_[k]), -2.0*Q[i].lexpr_.coeffs_[k]), false); }
        st.h()[r+2] = 2.0*(st.h()[r+2] + Q[i].lexpr_.constant_ + Q[i].getValue());
        st.c()[col(Q[i].extra_vars_.back())] = p.stgs_.get(SolverDoubleParam_SoftConstraintWeightReduced);
        n++;
      }
    }
  }
  // squares of the quadratic inequalities
  int r = rf + (warm ? 0 : 3*p.numSoftConstraints_);
  for (int i=0; i<nq; i++) {
    for (size_t j=0; j<Q[i].coeffs_.size(); j++) {
      st.addCoeff(Coeff(r+3*j, col(Q[i].extra_vars_[j]), -1.0), false);
      st.addCoeff(Coeff(r+3*j+1, col(Q[i].extra_vars_[j]), -1.0), false);
      for (size_t k=0; k<Q[i].qexpr_[j].vars_.size(); k++) { st.addCoeff(Coeff(r+3*j+2, col(Q[i].qexpr_[j].vars_[k]), -2.0*Q[i].qexpr_[j].coeffs_[k]), false); }
      st.h()[r+3*j] = 1.0;
      st.h()[r+3*j+1] = -1.0;
      st.h()[r+3*j+2] = 2.0*Q[i].qexpr_[j].constant_;
    }
    r += 3*Q[i].coeffs_.size();
  }
  // cones
  for (int i=0; i<ns; i++) {
    st.addCoeff(Coeff(r, col(S[i].extra_vars_[0]), -1.0), false);
    st.h()[r] = 0.0;
    for (size_t j=0; j<S[i].qexpr_.size(); j++) {
      for (size_t k=0; k<S[i].qexpr_[j].vars_.size(); k++) { st.addCoeff(Coeff(r+1+j, col(S[i].qexpr_[j].vars_[k]), -S[i].qexpr_[j].coeffs_[k]), false); }
      st.h()[r+1+j] = S[i].qexpr_[j].constant_;
    }
    r += 1 + S[i].coeffs_.size();
  }
  st.initializeMatrices();
  p.ip_solver_.initialize(st, p.cone_, p.stgs_);
}
//@ solver::SolverStorage::addCoeff
void addCoeff(SolverStorage& st, const Eigen::Triplet<double>& t, bool eq)
{
  if (eq) st.Acoeffs_.push_back(t); else st.Gcoeffs_.push_back(t);
}
//@ solver::SolverStorage::cleanCoeffs
void cleanCoeffs(SolverStorage& st) { st.Gcoeffs_.clear(); st.Acoeffs_.clear(); }
//@ solver::SolverStorage::initialize
void storageInit(SolverStorage& st, Cone& cone, SolverSetting& stgs)
{
  st.cone_ = &cone;
  st.stgs_ = &stgs;
  st.A_.resize(cone.neq_, cone.nvars_);
  st.G_.resize(cone.nineq_ + cone.ssoc_, cone.nvars_);
  st.cbh_.initialize(cone);
  st.cbh_copy_.initialize(cone);
  st.u_opt_.initialize(cone);
  st.v_opt_.initialize(cone);
  st.u_t_opt_.initialize(cone);
  st.u_prev_opt_.initialize(cone);
}
//@ solver::SolverStorage::initializeMatrices
void storageMatrices(SolverStorage& st)
{
  st.A_.setFromTriplets(st.Acoeffs_.begin(), st.Acoeffs_.end());
  if (!st.A_.isCompressed()) st.A_.makeCompressed();
  st.G_.setFromTriplets(st.Gcoeffs_.begin(), st.Gcoeffs_.end());
  if (!st.G_.isCompressed()) st.G_.makeCompressed();
}
}

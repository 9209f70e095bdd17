// Equilibration, KKT system and sparse LDL' factorisation of the interior point solver, written from their definitions.
#include <cmath>
#include <algorithm>
#include <solver/optimizer/IPSolver.hpp>
using namespace solver;
namespace spec {
typedef Eigen::SparseMatrix<double> Sp;

//@ solver::EqRoutine::setEquilibration
void setEquilibration(EqRoutine& s, const Cone& cone, const SolverSetting& stgs, SolverStorage& stg)
{
  s.stgs_ = std::make_shared<SolverSetting>(stgs);
  s.cone_ = std::make_shared<Cone>(cone);
  s.equil_vec_.initialize(cone);
  s.ruizEquilibration(stg);
}
//@ solver::EqRoutine::ruizEquilibration
void ruizEquilibration(EqRoutine& s, SolverStorage& stg)
{
  Vector d;
  s.equil_vec_.setOnes();
  d.initialize(*s.cone_);
  const int n = s.cone_->nvars_ + s.cone_->neq_ + s.cone_->sizecone_;
  int left = 0;
  while (left < s.stgs_->get(SolverIntParam_EquilibrationIters)) {
    d.setZero();
    if (stg.A_.nonZeros() > 0) { s.maxRowsCols(d.y().data(), d.x().data(), stg.A_); }
    if (stg.G_.nonZeros() > 0) { s.maxRowsCols(d.z().data(), d.x().data(), stg.G_); }
    // rows of one cone share one factor
    for (int q=0; q<s.cone_->nsoc_; q++) { const double t = d.zSoc(q).sum(); d.zSoc(q).setConstant(t); }
    for (int i=0; i<n; i++) { if (std::fabs(d[i]) < 1e-6) { d[i] = 1.0; } else { d[i] = std::sqrt(d[i]); } }
    if (stg.A_.nonZeros() > 0) { s.equilibrateRowsCols(d.y().data(), d.x().data(), stg.A_); }
    if (stg.G_.nonZeros() > 0) { s.equilibrateRowsCols(d.z().data(), d.x().data(), stg.G_); }
    s.equil_vec_.array() *= d.array();
    left++;
  }
  stg.cbh_.array() /= s.equil_vec_.array();
}
//@ solver::EqRoutine::equilibrateRowsCols
void equilibrateRowsCols(EqRoutine& s, const double* row, const double* col, Sp& m)
{
  for (int k=0; k<m.outerSize(); ++k) {
    for (Sp::InnerIterator it(m,k); it; ++it) { it.valueRef() = it.value()/(row[it.row()]*col[it.col()]); }
  }
}
//@ solver::EqRoutine::unequilibrateRowsCols
void unequilibrateRowsCols(EqRoutine& s, const double* row, const double* col, Sp& m)
{
  for (int k=0; k<m.outerSize(); ++k) {
    for (Sp::InnerIterator it(m,k); it; ++it) { it.valueRef() = it.value()*col[it.col()]*row[it.row()]; }
  }
}
//@ solver::EqRoutine::unsetEquilibration
void unsetEquilibration(EqRoutine& s, SolverStorage& stg)
{
  stg.cbh_.array() *= s.equil_vec_.array();
  if (stg.G_.nonZeros() > 0) { s.unequilibrateRowsCols(s.equil_vec_.z().data(), s.equil_vec_.x().data(), stg.G_); }
  if (stg.A_.nonZeros() > 0) { s.unequilibrateRowsCols(s.equil_vec_.y().data(), s.equil_vec_.x().data(), stg.A_); }
}
//@ solver::EqRoutine::scaleVariables
void scaleVariables(EqRoutine& s, OptimizationVector& opt)
{
  // (x,y,z) := D^-1 (x,y,z)/tau,  s := D_z s/tau
  opt.s().array() *= (s.equil_vec_.z()/opt.tau()).array();
  opt.xyz().array() /= (s.equil_vec_*opt.tau()).array();
}

//@ solver::LinSolver::matrixTransposeTimesVector
void matrixTransposeTimesVector(LinSolver& s, const Sp& A, const Eigen::Ref<const Eigen::VectorXd>& x, Eigen::Ref<Eigen::VectorXd> y, bool add, bool fresh)
{
  if (fresh) { y.setZero(); }
  const double* v = A.valuePtr();
  const int* o = A.outerIndexPtr();
  const int* in = A.innerIndexPtr();
  for (int c=0; c<A.cols(); c++) {
    double t = y[c];
    for (int r=o[c]; r<o[c+1]; r++) {
      if (add) { t += v[r]*x[in[r]]; } else { t -= v[r]*x[in[r]]; }
    }
    y[c] = t;
  }
}
//@ solver::LinSolver::resizeProblemData
void resizeProblemData(LinSolver& s)
{
  const Cone& k = *s.cone_;
  const int n = k.nvars_ + k.neq_ + k.sizecone_ + 2*k.nsoc_;
  s.kkt_.resize(n, n); s.permKkt_.resize(n, n);
  s.perm_.resize(n); s.invPerm_.resize(n);
  s.permX_.resize(n); s.permdX_.resize(n); s.Pe_.resize(n);
  s.sign_.initialize(k); s.permSign_.initialize(k); s.Gdx_.initialize(k);
}
//@ solver::LinSolver::symbolicFactorization
void symbolicFactorization(LinSolver& s) { s.cholesky_.analyzePattern(s.permKkt_, *s.setting_); }
//@ solver::LinSolver::numericFactorization
FactStatus numericFactorization(LinSolver& s)
{
  if (s.cholesky_.factorize(s.permKkt_, s.permSign_) != s.permKkt_.cols()) { return FactStatus::Failure; }
  return FactStatus::Optimal;
}
//@ solver::LinSolver::findPermutation
void findPermutation(LinSolver& s)
{
  Eigen::AMDOrdering<int> amd;
  amd(s.kkt_, s.perm_);
  s.invPerm_ = s.perm_.inverse();
  for (int i=0; i<s.cone_->extSizeProb(); i++) { s.permSign_[i] = s.sign_[s.perm_.indices()[i]]; }
  s.permKkt_.selfadjointView<Eigen::Upper>() = s.kkt_.selfadjointView<Eigen::Upper>().twistedBy(s.invPerm_);
}
//@ solver::LinSolver::initializeMatrix
void initializeMatrix(LinSolver& s)
{
  // scaling of the identity: W'W = I
  Cone& k = *s.cone_;
  double* v = s.permKkt_.valuePtr();
  for (int i=0; i<k.nineq_; i++) { v[k.indexLpc(i)] = -1.0; }
  for (int q=0; q<k.nsoc_; q++) {
    auto& c = k.soc_[q];
    const int n = k.sizeSoc(q);
    v[c.indexSoc(0)] = -1.0;
    for (int j=1; j<n; j++) { v[c.indexSoc(j)] = -1.0; }
    for (int j=0; j<n-1; j++) { v[c.indexSoc(n+j)] = 0.0; }
    v[c.indexSoc(2*n-1)] = -1.0;
    v[c.indexSoc(2*n)] = 0.0;
    for (int j=0; j<n-1; j++) { v[c.indexSoc(2*n+1+j)] = 0.0; }
    v[c.indexSoc(3*n)] = 1.0;
  }
}
//@ solver::LinSolver::updateMatrix
void updateMatrix(LinSolver& s)
{
  Cone& k = *s.cone_;
  const double reg = s.setting_->get(SolverDoubleParam_StaticRegularization);
  s.static_regularization_ = reg;
  double* v = s.permKkt_.valuePtr();
  for (int i=0; i<k.nineq_; i++) { v[k.indexLpc(i)] = -(k.sqScalingLpc(i) + reg); }
  for (int q=0; q<k.nsoc_; q++) {
    // -eta^2 [D v u; v' 1 0; u' 0 -1] with D = diag(d1, I)
    auto& c = k.soc_[q];
    const int n = k.sizeSoc(q);
    const double e2 = c.eta_square_;
    v[c.indexSoc(0)] = -e2*c.d1_ - reg;
    for (int j=1; j<n; j++) { v[c.indexSoc(j)] = -(e2 + reg); }
    for (int j=0; j<n-1; j++) { v[c.indexSoc(n+j)] = -e2*c.v1_*c.wbar_[1+j]; }
    v[c.indexSoc(2*n-1)] = -e2;
    v[c.indexSoc(2*n)] = -e2*c.u0_;
    for (int j=0; j<n-1; j++) { v[c.indexSoc(2*n+1+j)] = -e2*c.u1_*c.wbar_[1+j]; }
    v[c.indexSoc(3*n)] = e2 + reg;
  }
}
//@ solver::LinSolver::buildProblem
void buildProblem(LinSolver& s)
{
  Cone& k = *s.cone_;
  SolverStorage& st = *s.storage_;
  const int n = k.nvars_, p = k.neq_, l = k.nineq_;
  s.sign_.x().setOnes();
  s.sign_.y().setConstant(-1.0);
  s.sign_.z().setConstant(-1.0);
  for (int q=0; q<k.nsoc_; q++) { s.sign_.zSoc(q)[k.sizeSoc(q)+1] = 1.0; }
  const double reg = s.setting_->get(SolverDoubleParam_StaticRegularization);
  s.static_regularization_ = reg;
  std::vector<Eigen::Triplet<double>> t;
  for (int i=0; i<n; i++) { t.push_back(Eigen::Triplet<double>(i, i, reg)); }
  for (int c=0; c<st.At_.outerSize(); c++) {
    for (Sp::InnerIterator it(st.At_,c); it; ++it) { t.push_back(Eigen::Triplet<double>(it.row(), n+it.col(), it.value())); }
    t.push_back(Eigen::Triplet<double>(n+c, n+c, -reg));
  }
  for (int c=0; c<l; c++) {
    for (Sp::InnerIterator it(st.Gt_,c); it; ++it) { t.push_back(Eigen::Triplet<double>(it.row(), n+p+it.col(), it.value())); }
    t.push_back(Eigen::Triplet<double>(n+p+c, n+p+c, -1.0));
    k.indexLpc(c) = n + p + c + st.At_.nonZeros() + st.Gt_.leftCols(c+1).nonZeros();
  }
  int at = n + p + l + st.At_.nonZeros() + st.Gt_.leftCols(l).nonZeros();
  for (int q=0; q<k.nsoc_; q++) {
    const int m = k.sizeSoc(q), c0 = k.SOC_start_[q], o = n + p + c0 + 2*q;   // first row of the extended cone block
    for (int i=0; i<m; i++) {
      for (Sp::InnerIterator it(st.Gt_,c0+i); it; ++it) { t.push_back(Eigen::Triplet<double>(it.row(), n+p+2*q+it.col(), it.value())); }
      t.push_back(Eigen::Triplet<double>(o+i, o+i, -1.0));
      k.soc_[q].indexSoc(i) = at + st.Gt_.col(c0+i).nonZeros();
      at += st.Gt_.col(c0+i).nonZeros() + 1;
    }
    at += 2*m + 1;
    for (int i=1; i<m; i++) { t.push_back(Eigen::Triplet<double>(o+i, o+m, 0.0)); }
    t.push_back(Eigen::Triplet<double>(o+m, o+m, -1.0));
    for (int i=0; i<m; i++) { t.push_back(Eigen::Triplet<double>(o+i, o+m+1, 0.0)); }
    t.push_back(Eigen::Triplet<double>(o+m+1, o+m+1, 1.0));
  }
  s.kkt_.setFromTriplets(t.begin(), t.end());
  if (!s.kkt_.isCompressed()) { s.kkt_.makeCompressed(); }
}
//@ solver::LinSolver::initialize
void initialize(LinSolver& s, Cone& cone, SolverSetting& setting, SolverStorage& storage)
{
  s.cone_ = &cone; s.setting_ = &setting; s.storage_ = &storage;
  s.resizeProblemData();
  s.buildProblem();
  s.findPermutation();
  s.symbolicFactorization();
  // place of every upper entry of the KKT matrix in the permuted matrix
  Eigen::VectorXi next = Eigen::Map<Eigen::VectorXi>(s.permKkt_.outerIndexPtr(), cone.extSizeProb()+1);
  s.permK_.resize(s.kkt_.nonZeros());
  int e = 0;
  for (int j=0; j<s.kkt_.outerSize(); j++) {
    for (Sp::InnerIterator it(s.kkt_,j); it; ++it) {
      if (it.row() > it.col()) { continue; }
      const int a = s.invPerm_.indices()[it.row()], b = s.invPerm_.indices()[it.col()];
      s.permK_.indices()[e] = next[std::max(a, b)]++;
      e++;
    }
  }
  for (int i=0; i<cone.nineq_; i++) { cone.indexLpc(i) = s.permK_.indices()[cone.indexLpc(i)]; }
  for (int q=0; q<cone.nsoc_; q++) {
    auto& c = cone.soc_[q];
    const int n = cone.sizeSoc(q);
    for (int r=0; r<2*n+1; r++) { c.indexSoc(n+r) = s.permK_.indices()[c.indexSoc(n-1)+1+r]; }
    for (int r=0; r<n; r++) { c.indexSoc(r) = s.permK_.indices()[c.indexSoc(r)]; }
  }
}
//@ solver::LinSolver::solve
int solve(LinSolver& s, const Eigen::Ref<const Eigen::VectorXd>& b, OptimizationVector& d, bool init)
{
  Cone& k = *s.cone_;
  SolverStorage& st = *s.storage_;
  const int n = k.extSizeProb();
  const double reg = s.static_regularization_;
  const int limit = s.setting_->get(SolverIntParam_NumIterRefinementsLinSolve);
  int* P = s.invPerm_.indices().data();
  Eigen::VectorXd dz(k.extSizeCone());
  ExtendedVector err;
  err.initialize(k);
  double before = SolverSetting::nan;
  const double tol = s.setting_->get(SolverDoubleParam_LinearSystemAccuracy)*(1.0 + (n > 0 ? b.lpNorm<Eigen::Infinity>() : 0.0));
  s.cholesky_.solve(b, s.permX_.data());
  int it = 0;
  for (; it<=limit; it++) {
    k.unpermuteSolution(s.invPerm_, s.permX_, d, dz);
    for (int i=0; i<n; i++) { err[i] = b[P[i]]; }
    // e_x = b_x - (reg dx + A'dy + G'dz)
    s.matrixTransposeTimesVector(st.A_, d.y(), err.x(), false, false);
    s.matrixTransposeTimesVector(st.G_, d.z(), err.x(), false, false);
    err.x() -= reg*d.x();
    // e_y = b_y - (A dx - reg dy)
    if (st.A_.nonZeros() > 0) {
      s.matrixTransposeTimesVector(st.At_, d.x(), err.y(), false, false);
      err.y() += reg*d.y();
    }
    // e_z = b_z - (G dx - (reg + W'W) dz)
    s.matrixTransposeTimesVector(st.Gt_, d.x(), s.Gdx_, true, true);
    err.zLpc() -= s.Gdx_.zLpc() - reg*d.zLpc();
    for (int q=0; q<k.nsoc_; q++) {
      const int m = k.sizeSoc(q), o = k.SOC_start_[q];
      double* ez = err.z().data() + o + 2*q;
      for (int j=0; j<m-1; j++) { ez[j] = ez[j] - s.Gdx_[o+j] + reg*d.z()[o+j]; }
      ez[m-1] = ez[m-1] - s.Gdx_[o+m-1] - reg*d.z()[o+m-1];
    }
    if (init) { err.z() += dz; } else { k.conicNTScaling2(dz, err.z()); }
    const double now = err.size() > 0 ? err.lpNorm<Eigen::Infinity>() : 0.0;
    if (it > 0 && now > before) { s.permX_ -= s.permdX_; it--; break; }
    if (it == limit || now < tol || (it > 0 && before < s.setting_->get(SolverDoubleParam_ErrorReductionFactor)*now)) { break; }
    before = now;
    for (int i=0; i<n; i++) { s.Pe_[P[i]] = err[i]; }
    s.cholesky_.solve(s.Pe_, s.permdX_.data());
    s.permX_ += s.permdX_;
  }
  k.unpermuteSolution(s.invPerm_, s.permX_, d);
  return it;
}
//@ linalg::SparseCholesky::solve/2
void cholSolve(linalg::SparseCholesky& s, const Eigen::Ref<const Eigen::VectorXd>& b, double* x)
{
  // L D L' x = b, L unit lower triangular without its diagonal
  const double* v = s.L_.valuePtr();
  const int* o = s.L_.outerIndexPtr();
  const int* r = s.L_.innerIndexPtr();
  const int n = b.size();
  Eigen::Map<Eigen::VectorXd> X(x, b.size());
  X = b;
  for (int j=0; j<n; j++) { for (int p=o[j]; p<o[j+1]; p++) { x[r[p]] -= v[p]*x[j]; } }
  for (int j=0; j<n; j++) { x[j] = x[j]/s.D_[j]; }
  for (int j=n-1; j>=0; j--) { for (int p=o[j]; p<o[j+1]; p++) { x[j] -= v[p]*x[r[p]]; } }
}
//@ linalg::SparseCholesky::analyzePattern
void analyzePattern(linalg::SparseCholesky& s, const Sp& m, const SolverSetting& stg)
{
  s.setting_ = std::make_shared<const SolverSetting>(stg);
  const int n = m.cols();
  s.n_ = n;
  s.L_.resize(n, n);
  s.X_.resize(n); s.D_.resize(n); s.Y_.resize(n);
  s.Flag_.resize(n); s.Lnnz_.resize(n); s.Parent_.resize(n); s.Pattern_.resize(n);
  std::vector<Eigen::Triplet<double>> t;
  for (int k=0; k<m.outerSize(); k++) {
    s.Parent_[k] = -1;
    s.Flag_[k] = k;
    s.Lnnz_[k] = 0;
    for (Sp::InnerIterator it(m,k); it; ++it) {
      int r = it.row();
      while (s.Flag_[r] != k) {
        if (s.Parent_[r] == -1) { s.Parent_[r] = k; }
        s.Lnnz_[r] += 1;
        s.Flag_[r] = k;
        r = s.Parent_[r];
      }
    }
  }
  for (int c=0; c<n; c++) { for (int r=0; r<s.Lnnz_[c]; r++) { t.push_back(Eigen::Triplet<double>(int(r%n), c, 1.0)); } }
  s.L_.setFromTriplets(t.begin(), t.end());
  if (!s.L_.isCompressed()) { s.L_.makeCompressed(); }
}
//@ linalg::SparseCholesky::factorize
int factorize(linalg::SparseCholesky& s, const Sp& m, const Eigen::Ref<const Eigen::VectorXd>& sign)
{
  double* v = s.L_.valuePtr();
  int* o = s.L_.outerIndexPtr();
  int* in = s.L_.innerIndexPtr();
  const double* a = m.valuePtr();
  const int* ao = m.outerIndexPtr();
  const int* ai = m.innerIndexPtr();
  s.delta_ = s.setting_->get(SolverDoubleParam_DynamicRegularization);
  s.eps_ = s.setting_->get(SolverDoubleParam_DynamicRegularizationThresh);
  for (int k=0; k<m.outerSize(); k++) {
    s.Y_[k] = 0.0;
    s.Lnnz_[k] = 0;
    s.Flag_[k] = k;
    int top = s.n_;
    for (int p=ao[k]; p<ao[k+1]; p++) {
      int row = ai[p], len = 0;
      s.Y_[row] = a[p];
      while (s.Flag_[row] != k) {
        s.Pattern_[len] = row;
        len++;
        s.Flag_[row] = k;
        row = s.Parent_[row];
      }
      while (len > 0) { top--; len--; s.Pattern_[top] = s.Pattern_[len]; }
    }
    s.D_[k] = s.Y_[k];
    s.Y_[k] = 0.0;
    for (; top<s.n_; top++) {
      const int i = s.Pattern_[top];
      const double yi = s.Y_[i];
      s.Y_[i] = 0.0;
      int p = o[i];
      for (; p<o[i]+s.Lnnz_[i]; p++) { s.Y_[in[p]] -= v[p]*yi; }
      const double l = yi/s.D_[i];
      s.D_[k] -= l*yi;
      in[p] = k;
      v[p] = l;
      s.Lnnz_[i]++;
    }
    if (sign[k]*s.D_[k] <= s.eps_) { s.D_[k] = sign[k]*s.delta_; }
  }
  return s.n_;
}
}

// Reference formulas of the product cone R+^l x SOC_1 x ... x SOC_n, written blockwise from the textbook definitions.
#include <solver/interface/Cone.hpp>
using namespace solver;
typedef Eigen::Ref<const Eigen::VectorXd> CRef;
typedef Eigen::Ref<Eigen::VectorXd> MRef;

namespace spec {
double sdiv(double a, double b) { if (b < 1e-13) return a/1e-13; return a/b; }

// sizes and offsets: variables | equalities | linear cone | second-order cones
//@ solver::Cone::initialize/4
void Cone_initialize(Cone& c, int n, int p, int l, const Eigen::VectorXi& q)
{
  c.nvars_ = n; c.neq_ = p; c.nineq_ = l; c.nsoc_ = q.size(); c.ssoc_ = q.sum(); c.q_ = q;
  c.extssoc_ = q.sum() + 2*q.size();
  c.lpconestart_ = n + p;
  c.soconestart_ = n + p + l;
  c.sizecone_ = l + q.sum();
  c.extsizecone_ = l + q.sum() + 2*q.size();
  c.sizeconstraints_ = p + l + q.sum();
  c.sizeproblem_ = n + p + l + q.sum();
  c.extsizeproblem_ = n + p + l + q.sum() + 2*q.size();
  c.LP_id_.resize(l); c.LP_scaling_.resize(l); c.LP_sq_scaling_.resize(l);
  c.soc_.clear();
  c.SOC_start_.resize(q.size()); c.opt_SOC_start_.resize(q.size()); c.ext_SOC_start_.resize(q.size());
  for (int k=0; k<q.size(); k++) {
    c.soc_.push_back(NesterovToddScaling(q(k)));
    c.SOC_start_(k) = l + q.head(k).sum();
    c.opt_SOC_start_(k) = n + p + l + q.head(k).sum();
    c.ext_SOC_start_(k) = n + p + l + q.head(k).sum() + 2*k;
  }
  c.W_scaling_operator_.initialize(c);
  c.skbar_.resize(l + q.sum()); c.zkbar_.resize(l + q.sum());
}

//@ solver::Cone::safeDivision
double Cone_safeDivision(const Cone& c, double x, double y) { return sdiv(x,y); }

//@ solver::Cone::normSoc
double Cone_normSoc(const CRef& v) { return v[0]-v.tail(v.size()-1).norm(); }

//@ solver::Cone::conicProduct
double Cone_conicProduct(const Cone& c, const CRef u, const CRef v, MRef w)
{
  double mu = 0.0;
  for (int i=0; i<c.sizeLpc(); i++) { w[i] = u[i]*v[i]; }
  for (int i=0; i<c.sizeLpc(); i++) { mu += std::abs(w[i]); }
  for (int k=0; k<c.numSoc(); k++) {
    int b = c.startSoc(k), q = c.sizeSoc(k);
    w[b] = u.segment(b,q).dot(v.segment(b,q));
    for (int j=1; j<q; j++) { w[b+j] = u[b]*v[b+j] + v[b]*u[b+j]; }
    mu += std::abs(w[b]);
  }
  return mu;
}

// v with u o v = w
//@ solver::Cone::conicDivision
void Cone_conicDivision(const Cone& c, const CRef& u, const CRef& w, MRef v)
{
  for (int i=0; i<c.sizeLpc(); i++) { v[i] = sdiv(w[i],u[i]); }
  for (int k=0; k<c.numSoc(); k++) {
    int b = c.startSoc(k), q = c.sizeSoc(k);
    double rho = u[b]*u[b] - u.segment(b+1,q-1).squaredNorm();
    double zeta = u.segment(b+1,q-1).dot(w.segment(b+1,q-1));
    double f = sdiv(sdiv(zeta,u[b]) - w[b], rho);
    v[b] = sdiv(u[b]*w[b] - zeta, rho);
    for (int j=1; j<q; j++) { v[b+j] = f*u[b+j] + sdiv(w[b+j],u[b]); }
  }
}

// W z
//@ solver::Cone::conicNTScaling ~Eigen
void nt(const Cone& c, const CRef& z, MRef r)
{
  for (int i=0; i<c.sizeLpc(); i++) { r[i] = c.scalingLpc(i)*z[i]; }
  for (int k=0; k<c.numSoc(); k++) {
    int b = c.startSoc(k), q = c.sizeSoc(k);
    const NesterovToddScaling& S = c.soc(k);
    double zeta = S.scalingSoc().tail(q-1).dot(z.segment(b+1,q-1));
    r[b] = S.eta()*(S.scalingSoc(0)*z[b] + zeta);
    for (int j=1; j<q; j++) { r[b+j] = S.eta()*(z[b+j] + (z[b] + sdiv(zeta,1.0+S.scalingSoc(0)))*S.scalingSoc(j)); }
  }
}

// step into the cone by the largest violation plus one
//@ solver::Cone::conicProjection
void Cone_conicProjection(Cone& c, MRef s)
{
  double worst = 0.0;
  for (int i=0; i<c.sizeLpc(); i++) { if (s[i] < 0.0) { worst = std::max(worst, std::abs(s[i])); } }
  for (int k=0; k<c.numSoc(); k++) {
    double r = std::max(s.segment(c.startSoc(k)+1,c.sizeSoc(k)-1).norm() - s[c.startSoc(k)], 0.0);
    if (r > worst) { worst = r; }
  }
  for (int i=0; i<c.sizeLpc(); i++) { s[i] += 1.0 + worst; }
  for (int k=0; k<c.numSoc(); k++) { s[c.startSoc(k)] += 1.0 + worst; }
}

// y += W^2 x in the expanded (sparse) representation
//@ solver::Cone::conicNTScaling2
void nt2(const Cone& c, const Eigen::VectorXd& x, MRef y)
{
  for (int i=0; i<c.sizeLpc(); i++) { y[i] += c.sqScalingLpc(i)*x[i]; }
  for (int k=0; k<c.numSoc(); k++) {
    int b = c.startSoc(k) + 2*k, q = c.sizeSoc(k);
    const NesterovToddScaling& S = c.soc(k);
    double s = S.scalingSoc().segment(1,q-1).dot(x.segment(b+1,q-1));
    y[b] += S.etaSquare()*(S.d1()*x[b] + S.u0()*x[b+q+1]);
    for (int j=1; j<q; j++) { y[b+j] += S.etaSquare()*(x[b+j] + (S.v1()*x[b+q] + S.u1()*x[b+q+1])*S.scalingSoc(j)); }
    y[b+q] += S.etaSquare()*(S.v1()*s + x[b+q]);
    y[b+q+1] += S.etaSquare()*(S.u0()*x[b] + S.u1()*s - x[b+q+1]);
  }
}

double residual(const Eigen::VectorXd& u, int b, int q) { return u[b]*u[b] - u.segment(b+1,q-1).squaredNorm(); }

//@ solver::Cone::updateNTScalings
ConeStatus Cone_updateNTScalings(Cone& c, const Eigen::VectorXd& s, const Eigen::VectorXd& z, Eigen::VectorXd& lambda)
{
  for (int i=0; i<c.sizeLpc(); i++) {
    c.sqScalingLpc(i) = sdiv(s[i],z[i]);
    c.scalingLpc(i) = std::sqrt(c.sqScalingLpc(i));
  }
  for (int k=0; k<c.numSoc(); k++) {
    int b = c.startSoc(k), q = c.sizeSoc(k);
    double rs = residual(s,b,q), rz = residual(z,b,q);
    if (rs <= 0 || rz <= 0) { return ConeStatus::Outside; }
    for (int j=0; j<q; j++) { c.skbar_[b+j] = s[b+j]*sdiv(1.0,std::sqrt(rs)); }
    for (int j=0; j<q; j++) { c.zkbar_[b+j] = z[b+j]*sdiv(1.0,std::sqrt(rz)); }
    c.soc(k).etaSquare() = sdiv(std::sqrt(rs),std::sqrt(rz));
    c.soc(k).eta() = std::sqrt(c.soc(k).etaSquare());
    double g = sdiv(0.5, std::sqrt(0.5 + 0.5*c.skbar_.segment(b,q).dot(c.zkbar_.segment(b,q))));
    c.soc(k).scalingSoc(0) = g*(c.skbar_[b] + c.zkbar_[b]);
    for (int j=1; j<q; j++) { c.soc(k).scalingSoc(j) = g*(c.skbar_[b+j] - c.zkbar_[b+j]); }
    double w = 0.0;
    for (int j=1; j<q; j++) { w += c.soc(k).scalingSoc(j)*c.soc(k).scalingSoc(j); }
    c.soc(k).w() = w;
    double w0 = c.soc(k).scalingSoc(0);
    double wn = c.soc(k).scalingSoc().tail(q-1).squaredNorm();
    double alpha = 1.0 + w0 + sdiv(wn,1.0+w0);
    double beta = 1.0 + sdiv(2.0,1.0+w0) + sdiv(wn,(1.0+w0)*(1.0+w0));
    c.soc(k).d1() = std::max(0.5*(w0*w0 + wn*(1.0 - sdiv(alpha*alpha,1.0+wn*beta))),0.0);
    c.soc(k).u0() = std::sqrt(w0*w0 + wn - c.soc(k).d1());
    c.soc(k).u1() = sdiv(alpha,c.soc(k).u0());
    c.soc(k).v1() = c.soc(k).u1()*c.soc(k).u1() - beta;
    if (c.soc(k).v1() <= 0) { return ConeStatus::Outside; }
    c.soc(k).v1() = std::sqrt(c.soc(k).v1());
  }
  nt(c, z, lambda);
  return ConeStatus::Inside;
}

// undo the fill-in reducing permutation; expanded cone entries are dropped from dz
void unperm(const Cone& c, const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& P, const Eigen::VectorXd& Px, OptimizationVector& d)
{
  int n = c.numVars(), p = c.numLeq(), l = c.sizeLpc();
  for (int i=0; i<n; i++) { d.x()[i] = Px[P.indices().data()[i]]; }
  for (int i=0; i<p; i++) { d.y()[i] = Px[P.indices().data()[n+i]]; }
  for (int i=0; i<l; i++) { d.z()[i] = Px[P.indices().data()[c.lpConeStart()+i]]; }
}
//@ solver::Cone::unpermuteSolution/3
void unpermute3(const Cone& c, const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& P, const Eigen::VectorXd& Px, OptimizationVector& d)
{
  unperm(c,P,Px,d);
  int k = c.soConeStart(), j = c.sizeLpc();
  for (int s=0; s<c.numSoc(); s++) {
    for (int i=0; i<c.sizeSoc(s); i++) { d.z()[j] = Px[P.indices().data()[k]]; j++; k++; }
    k += 2;
  }
}
//@ solver::Cone::unpermuteSolution/4
void unpermute4(const Cone& c, const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& P, const Eigen::VectorXd& Px, OptimizationVector& d, Eigen::VectorXd& e)
{
  unpermute3(c,P,Px,d);
  for (int i=0; i<c.extSizeCone(); i++) { e[i] = Px[P.indices().data()[c.lpConeStart()+i]]; }
}

//@ solver::Vector::initialize
void Vector_initialize(Vector& v, const Cone& c) { v.cone_ = &c; v.resize(c.sizeProb()); v.setZero(); }
//@ solver::ConicVector::initialize
void ConicVector_initialize(ConicVector& v, const Cone& c) { v.cone_ = &c; v.resize(c.sizeCone()); v.setZero(); }
//@ solver::ExtendedVector::initialize
void ExtendedVector_initialize(ExtendedVector& v, const Cone& c) { v.cone_ = &c; v.resize(c.extSizeProb()); v.setZero(); }
//@ solver::OptimizationVector::initialize
void OptimizationVector_initialize(OptimizationVector& v, const Cone& c) { v.cone_ = &c; v.resize(c.sizeProb() + c.sizeCone() + 2); v.setZero(); }
//@ solver::ExtendedVector::zRtoE
void ExtendedVector_zRtoE(ExtendedVector& v, const CRef& r)
{
  const Cone& c = *v.cone_;
  v.segment(c.lpConeStart(),c.sizeLpc()) = r.head(c.sizeLpc());
  for (int k=0; k<c.numSoc(); k++) {
    v.segment(c.extStartSoc(k)+c.sizeSoc(k),2).setZero();
    v.segment(c.extStartSoc(k),c.sizeSoc(k)) = r.segment(c.startSoc(k),c.sizeSoc(k));
  }
}
//@ solver::ConicVector::operator+=
ConicVector& ConicVector_pe(ConicVector& v, const double& a)
{
  v.head(v.cone_->sizeLpc()).array() += a;
  for (int k=0; k<v.cone_->numSoc(); k++) { v[v.cone_->startSoc(k)] += a; }
  return v;
}

// u1^2 - |u2|^2 and its bilinear form
//@ solver::Cone::conicResidual/2 ~int
double Cone_resd(const Cone& c, const double* u, int n)
{
  double r = u[0]*u[0];
  for (int i=1; i<n; i++) { r -= u[i]*u[i]; }
  return r;
}
//@ solver::Cone::conicResidual/3
double Cone_resd2(const Cone& c, const double* u, const double* v, int n)
{
  double r = u[0]*v[0];
  for (int i=1; i<n; i++) { r -= u[i]*v[i]; }
  return r;
}
//@ solver::Cone::conicResidual/1
double Cone_res1(const Cone& c, const CRef& u) { return c.conicResidual(u.data(), u.size()); }
//@ solver::Cone::conicResidual/2 ~Eigen
double Cone_res2(const Cone& c, const CRef& u, const CRef& v) { return c.conicResidual(u.data(), v.data(), u.size()); }

// arithmetic of conic vectors; numbers are multiples of the unit element (1,..,1 | 1,0,..,0 | ..)
//@ solver::ConicVector::operator/
ConicVector ConicVector_div(const ConicVector& u, const ConicVector& w)
{
  ConicVector v; v.initialize(*u.cone_);
  u.cone_->conicDivision(u.z(), w.z(), v.z());
  return v;
}
//@ solver::ConicVector::operator*
ConicVector ConicVector_mul(const ConicVector& u, const ConicVector& w)
{
  ConicVector v; v.initialize(*u.cone_);
  u.cone_->conicProduct(u.z(), w.z(), v.z());
  return v;
}
//@ solver::ConicVector::operator+ ~(const%solver::ConicVector
ConicVector ConicVector_add(const ConicVector& u, const ConicVector& w)
{
  ConicVector v; v.initialize(*u.cone_);
  v.z() = u.z() + w.z();
  return v;
}
//@ solver::ConicVector::operator+ ~double
ConicVector ConicVector_addd(const ConicVector& u, const double& a)
{
  ConicVector v; v.initialize(*u.cone_);
  v.z() = u.z();
  for (int i=0; i<u.cone_->sizeLpc(); i++) { v[i] += a; }
  for (int k=0; k<u.cone_->numSoc(); k++) { v[u.cone_->startSoc(k)] += a; }
  return v;
}
//@ solver::ConicVector::operator-/1
ConicVector ConicVector_subd(const ConicVector& u, const double& a)
{
  ConicVector v; v.initialize(*u.cone_);
  v.z() = u.z();
  for (int i=0; i<u.cone_->sizeLpc(); i++) { v[i] -= a; }
  for (int k=0; k<u.cone_->numSoc(); k++) { v[u.cone_->startSoc(k)] -= a; }
  return v;
}
//@ solver::ConicVector::operator-/0
ConicVector ConicVector_neg(const ConicVector& u)
{
  ConicVector v; v.initialize(*u.cone_);
  v.z() = -u.z();
  return v;
}
//@ solver::ScalingOperator::operator*
ConicVector Scaling_mul(const ScalingOperator& W, const CRef& z)
{
  ConicVector v; v.initialize(*W.cone_);
  W.cone_->conicNTScaling(z, v.z());
  return v;
}
//@ solver::OptimizationVector::operator+
OptimizationVector OptimizationVector_add(const OptimizationVector& a, const OptimizationVector& b)
{
  OptimizationVector r = a;
  r += b;
  return r;
}

// one scaling vector entry per entry of the cone, 3 n + 1 positions in the KKT matrix
//@ solver::NesterovToddScaling::NesterovToddScaling/1
void Soc_ctor(NesterovToddScaling& s, int n) { s.wbar_.resize(n); s.SOC_id_.resize(1+3*n); }
}

// Orientation algebra and polynomial trajectories.
#include <momentumopt/utilities/OrientationUtils.hpp>
#include <momentumopt/utilities/TrajectoryGenerator.hpp>

namespace momentumopt {
Eigen::Vector3d logarithmicMap(const Eigen::Quaternion<double>&);
Eigen::Quaternion<double> exponentialMap(const Eigen::Vector3d&);
Eigen::Matrix3d skewMatrix(const Eigen::Vector3d&);
Eigen::Matrix4d toQuaternionMatrix(const Eigen::Quaternion<double>&, bool);
Eigen::Matrix<double,4,3> jacobianQuaternionWrtRotationVector(const Eigen::Vector3d&);
Eigen::Matrix3d jacobianAngularVelocityWrtRotationVector(const Eigen::Vector3d&);
}
using namespace momentumopt;

namespace spec {
typedef Eigen::Quaternion<double> Q;
typedef Eigen::Vector3d V3;

//@ momentumopt::skewMatrix
Eigen::Matrix3d cross(const V3& v)
{
  Eigen::Matrix3d m;
  m << 0.0, -v[2], v[1],
       v[2], 0.0, -v[0],
       -v[1], v[0], 0.0;
  return m;
}

// of the two quaternions of a rotation, the one with the smaller angle
//@ momentumopt::logarithmicMap
V3 log(const Q& q)
{
  Q p = q;
  p.normalize();
  if (p.w() < 0.0) {
    p.vec() *= -1.0;
    p.w() *= -1.0;
  }
  if (std::abs(1.0 - p.w()) < 0.01)
    return 2.0*p.vec();
  const double half = std::acos(p.w());
  return 2.0*half/std::sin(half) * p.vec();
}

//@ momentumopt::exponentialMap
Q exp(const V3& r)
{
  const double n = r.norm();
  Q p;
  if (n < 0.01)
    p = Q(1.0, 0.5*r.x(), 0.5*r.y(), 0.5*r.z());
  else {
    p.w() = std::cos(0.5*n);
    p.vec() = r/n * std::sin(0.5*n);
  }
  p.normalize();
  if (p.w() < 0.0) {
    p.vec() *= -1.0;
    p.w() *= -1.0;
  }
  return p;
}

//@ momentumopt::toQuaternionMatrix
Eigen::Matrix4d multiplication(const Q& q, bool right)
{
  Eigen::Matrix4d m = q.w() * Eigen::Matrix4d::Identity();
  m.bottomLeftCorner<3,1>() = q.vec();
  m.topRightCorner<1,3>() = -q.vec();
  if (right)
    m.bottomRightCorner<3,3>() -= skewMatrix(q.vec());
  else
    m.bottomRightCorner<3,3>() += skewMatrix(q.vec());
  return m;
}

//@ momentumopt::jacobianQuaternionWrtRotationVector
Eigen::Matrix<double,4,3> derivative(const V3& r)
{
  const double n = r.norm();
  Eigen::Matrix<double,4,3> j = Eigen::Matrix<double,4,3>::Zero();
  if (n < 0.01) {
    j.topLeftCorner<1,3>() = -0.25*r;
    j.bottomLeftCorner<3,3>() = 0.5*Eigen::Matrix3d::Identity();
  } else {
    const double s = std::sin(0.5*n), c = std::cos(0.5*n);
    j.topLeftCorner<1,3>() = -(0.5*s/n)*r.transpose();
    j.bottomLeftCorner<3,3>() = s/n*Eigen::Matrix3d::Identity() + (c*n - 2.0*s)/(2.0*std::pow(n, 3.0)) * (r*r.transpose());
  }
  return j;
}

//@ momentumopt::jacobianAngularVelocityWrtRotationVector
Eigen::Matrix3d velocity(const V3& r)
{
  Eigen::Matrix<double,3,4> e = toQuaternionMatrix(exponentialMap(r), false).bottomRows<3>();
  e.bottomLeftCorner<3,1>() *= -1.0;
  return e * jacobianQuaternionWrtRotationVector(r);
}

//@ momentumopt::toAngularVelocity
V3 to(const V3& r, const V3& rate, bool body)
{
  const Eigen::Matrix3d j = jacobianAngularVelocityWrtRotationVector(r);
  if (body)
    return 2.0 * j.transpose() * rate;
  return 2.0 * j * rate;
}

//@ momentumopt::fromAngularVelocity
V3 from(const V3& r, const V3& w, bool body)
{
  const Eigen::Matrix3d j = jacobianAngularVelocityWrtRotationVector(r);
  if (body)
    return 0.5 * j.inverse().transpose() * w;
  return 0.5 * j.inverse() * w;
}

//@ momentumopt::orientationError
V3 error(const Q& want, const Q& have)
{
  Q d = want, c = have;
  d.normalize();
  c.normalize();
  if (c.dot(d) < 0.0) {
    c.w() *= -1.0;
    c.vec() *= -1.0;
  }
  return logarithmicMap(d * c.inverse());
}

//@ momentumopt::requiredAngularVelocity
V3 required(const Q& want, const Q& have, const double& dt, bool body)
{
  Q d = want, c = have;
  d.normalize();
  c.normalize();
  if (c.dot(d) < 0.0) {
    c.w() *= -1.0;
    c.vec() *= -1.0;
  }
  const V3 w = logarithmicMap(d * c.inverse())/dt;
  if (!body)
    return w;
  return c.inverse() * w;
}

//@ momentumopt::integrateAngularVelocity
Q integrate(const Q& have, const V3& w, const double& dt, bool body)
{
  Q c = have;
  c.normalize();
  if (body)
    return c * exponentialMap(w*dt);
  return exponentialMap(w*dt) * c;
}

// ---------------------------------------------------------------- trajectories
//@ momentumopt::Interpolator::initialize
void fit(Interpolator& p, const Interpolator::InterpMat& pos, const Interpolator::InterpMat& vel, const Interpolator::InterpMat& acc)
{
  const int n = pos.rows(), m = vel.rows(), k = acc.rows();
  p.cons_size_ = n + m + k;
  p.regression_vector_.resize(p.cons_size_);
  p.regression_matrix_.resize(p.cons_size_, p.cons_size_);
  p.regression_matrix_.setZero();
  p.time_span_.clear();
  p.time_span_.push_back(std::min(pos.col(0).minCoeff(), std::min(vel.col(0).minCoeff(), acc.col(0).minCoeff())));
  p.time_span_.push_back(std::max(pos.col(0).maxCoeff(), std::max(vel.col(0).maxCoeff(), acc.col(0).maxCoeff())));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < p.cons_size_; ++j)
      p.regression_matrix_(i, j) = std::pow(pos(i,0), double(j));
    p.regression_vector_(i) = pos(i,1);
  }
  for (int i = 0; i < m; ++i) {
    for (int j = 1; j < p.cons_size_; ++j)
      p.regression_matrix_(n+i, j) = j*std::pow(vel(i,0), j-1.0);
    p.regression_vector_(n+i) = vel(i,1);
  }
  for (int i = 0; i < k; ++i) {
    for (int j = 2; j < p.cons_size_; ++j)
      p.regression_matrix_(n+m+i, j) = j*(j-1)*std::pow(acc(i,0), j-2.0);
    p.regression_vector_(n+m+i) = acc(i,1);
  }
  p.regression_coeffs_ = p.regression_matrix_.householderQr().solve(p.regression_vector_);
}

//@ momentumopt::Interpolator::interpolate
void evaluate(Interpolator& p, const double time, double& x, double& v, double& a)
{
  double t = time;
  t = std::max(t, p.time_span_[0]);
  t = std::min(t, p.time_span_[1]);
  x = 0.0;
  v = 0.0;
  a = 0.0;
  for (int i = 0; i < p.cons_size_; ++i) {
    const double c = p.regression_coeffs_(i);
    x += c*std::pow(t, double(i));
    if (i >= 1)
      v += c*std::pow(t, i-1.0)*double(i);
    if (i >= 2)
      a += c*std::pow(t, i-2.0)*double(i)*double(i-1.0);
  }
}

//@ momentumopt::TrajectoryGenerator::initialize
void through(TrajectoryGenerator& g, const double t0, const V3& x0, const double t1, const V3& x1, const V3& via)
{
  Interpolator::InterpMat pos(3,2), vel(2,2), acc(2,2);
  vel << t0, 0.0, t1, 0.0;
  acc << t0, 0.0, t1, 0.0;
  for (int d = 0; d < 3; ++d) {
    pos << t0, x0(d), 0.5*(t0+t1), via(d), t1, x1(d);
    g.traj_interp_[d].initialize(pos, vel, acc);
  }
}

//@ momentumopt::TrajectoryGenerator::update
void at(TrajectoryGenerator& g, const double t)
{
  for (int d = 0; d < 3; ++d)
    g.traj_interp_[d].interpolate(t, g.pos_des_(d), g.vel_des_(d), g.acc_des_(d));
}
}

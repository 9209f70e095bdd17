// Linear expressions denote constant + sum coeff*var; quadratic expressions denote sum coeff*(linear)^2 (+ linear part kept apart).
#include <cmath>
#include <solver/interface/Exprs.hpp>
#include <solver/interface/SolverParams.hpp>
using namespace solver;
namespace spec {
//@ solver::LinExpr::getValue
double LinExpr_value(const LinExpr& e)
{
  double s = 0.0;
  for (size_t i=0; i<e.vars_.size(); i++) { s += e.vars_[i].get(SolverDoubleParam_X)*e.coeffs_[i]; }
  return s + e.constant_;
}
//@ solver::LinExpr::clean
LinExpr LinExpr_clean(const LinExpr& e)
{
  LinExpr r;
  r.constant_ = e.constant_;
  for (size_t i=0; i<e.vars_.size(); i++) {
    bool merged = false;
    for (size_t j=0; j<r.vars_.size(); j++) {
      if (e.vars_[i].var_storage_->col_no_ == r.vars_[j].var_storage_->col_no_) { r.coeffs_[j] += e.coeffs_[i]; merged = true; }
    }
    if (!merged && e.coeffs_[i] != 0.0) { r.vars_.push_back(e.vars_[i]); r.coeffs_.push_back(e.coeffs_[i]); }
  }
  return r;
}
//@ solver::LinExpr::operator* ~(double)
LinExpr LinExpr_scale(const LinExpr& e, double f)
{
  if (f == 0.0) { return LinExpr(); }
  LinExpr r = e;
  r.constant_ = r.constant_*f;
  for (size_t i=0; i<r.coeffs_.size(); i++) { r.coeffs_[i] = f*r.coeffs_[i]; }
  return LinExpr::clean(r);
}
//@ solver::LinExpr::operator+= ~(const as linear
LinExpr& LinExpr_add(LinExpr& e, const LinExpr& o)
{
  e.constant_ = o.constant_ + e.constant_;
  for (size_t i=0; i<o.vars_.size(); i++) { e.coeffs_.push_back(o.coeffs_[i]); e.vars_.push_back(o.vars_[i]); }
  e = LinExpr::clean(e);
  return e;
}
//@ solver::LinExpr::operator= ~(const
LinExpr LinExpr_assign(LinExpr& e, const LinExpr& o) { e.vars_ = o.vars_; e.coeffs_ = o.coeffs_; e.constant_ = o.constant_; return e; }
//@ solver::LinExpr::operator*= ~(double)
LinExpr& LinExpr_mulself(LinExpr& e, double a) { for (int i=0; i<(int)e.vars_.size(); i++) { e.coeffs_[i] = a*e.coeffs_[i]; } e.constant_ = a*e.constant_; return e; }
//@ solver::LinExpr::operator/= ~(double)
LinExpr& LinExpr_divself(LinExpr& e, double a) { for (int i=0; i<(int)e.vars_.size(); i++) { e.coeffs_[i] = e.coeffs_[i]/a; } e.constant_ = e.constant_/a; return e; }
//@ solver::LinExpr::clear
void LinExpr_clear(LinExpr& e) { e.vars_.clear(); e.coeffs_.clear(); e.constant_ = 0.0; }
//@ solver::LinExpr::getVar
const Var& LinExpr_var(const LinExpr& e, int i) { return e.vars_[i]; }
//@ solver::LinExpr::getCoeff
double LinExpr_coeff(const LinExpr& e, int i) { return e.coeffs_[i]; }
//@ solver::LinExpr::size
size_t LinExpr_size(const LinExpr& e) { return e.vars_.size(); }

//@ solver::DCPQuadExpr::getValue
double Quad_value(const DCPQuadExpr& q)
{
  double s = 0.0;
  for (size_t i=0; i<q.coeffs_.size(); i++) { double v = q.qexpr_[i].getValue(); s += v*v*q.coeffs_[i]; }
  return s;
}
//@ solver::DCPQuadExpr::addQuaTerm
void Quad_add(DCPQuadExpr& q, double c, const LinExpr& e) { if (c == 0.0) { return; } q.coeffs_.push_back(c); q.qexpr_.push_back(e); }
//@ solver::DCPQuadExpr::clear
void Quad_clear(DCPQuadExpr& q) { q.qexpr_.clear(); q.coeffs_.clear(); q.extra_vars_.clear(); q.lexpr_ = 0.0; }
//@ solver::DCPQuadExpr::getVar
const Var& Quad_var(const DCPQuadExpr& q, int i, int j) { return q.qexpr_[i].vars_[j]; }
}

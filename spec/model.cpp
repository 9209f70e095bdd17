// The model hands everything to its problem; a variable keeps bounds, value, guess, type and column in shared storage.
#include <stdexcept>
#include <solver/interface/Model.hpp>
using namespace solver;
namespace spec {
//@ solver::Model::clean
void clean(Model& m) { m.conic_problem_.clean(); }
//@ solver::Model::addVar
Var addVar(Model& m, const VarType& type, double lb, double ub, double guess) { return m.conic_problem_.addVar(type, lb, ub, guess); }
//@ solver::Model::addLinConstr
void addLin(Model& m, const LinExpr& l, const std::string sense, const LinExpr& r) { m.conic_problem_.addLinConstr(l, sense, r); }
//@ solver::Model::addSocConstr
void addSoc(Model& m, const DCPQuadExpr& q, const std::string sense, const LinExpr& l) { m.conic_problem_.addSocConstr(q, sense, l); }
//@ solver::Model::addQuaConstr
void addQua(Model& m, const DCPQuadExpr& q, const std::string sense, const LinExpr& l, const QuadConstrApprox& how) { m.conic_problem_.addQuaConstr(q, sense, l, how); }
//@ solver::Model::setObjective
void objective(Model& m, const DCPQuadExpr& q, const LinExpr& l) { m.conic_problem_.setObjective(q, l); }
//@ solver::Model::configSetting
void config(Model& m, const std::string file, const std::string name) { m.conic_problem_.configSetting(file, name); }

//@ solver::Var::Var/5
void var(Var& v, int col, const VarType& type, double lb, double ub, double guess)
{
  v.var_storage_.reset(new VarStorage());
  v.var_storage_->col_no_ = col;
  v.var_storage_->type_ = type;
  v.var_storage_->lb_ = lb;
  v.var_storage_->ub_ = ub;
  v.var_storage_->guess_ = guess;
  v.var_storage_->value_ = guess;
}
//@ solver::Var::get ~SolverIntParam
int getInt(const Var& v, SolverIntParam p)
{
  if (v.var_storage_ == nullptr) throw std::runtime_error("not initialised");
  if (p == SolverIntParam_ColNum) return v.var_storage_->col_no_;
  throw std::runtime_error("no such parameter");
}
//@ solver::Var::set ~SolverIntParam
void setInt(Var& v, SolverIntParam p, int x)
{
  if (p == SolverIntParam_ColNum) v.var_storage_->col_no_ = x;
  else throw std::runtime_error("no such parameter");
}
//@ solver::Var::get ~SolverDoubleParam
double getDouble(const Var& v, SolverDoubleParam p)
{
  if (v.var_storage_ == nullptr) throw std::runtime_error("not initialised");
  if (p == SolverDoubleParam_X) return v.var_storage_->value_;
  if (p == SolverDoubleParam_LB) return v.var_storage_->lb_;
  if (p == SolverDoubleParam_UB) return v.var_storage_->ub_;
  if (p == SolverDoubleParam_Guess) return v.var_storage_->guess_;
  throw std::runtime_error("no such parameter");
}
//@ solver::Var::set ~SolverDoubleParam
void setDouble(Var& v, SolverDoubleParam p, double x)
{
  if (p == SolverDoubleParam_X) v.var_storage_->value_ = x;
  else if (p == SolverDoubleParam_LB) v.var_storage_->lb_ = x;
  else if (p == SolverDoubleParam_UB) v.var_storage_->ub_ = x;
  else if (p == SolverDoubleParam_Guess) v.var_storage_->guess_ = x;
  else throw std::runtime_error("no such parameter");
}
}

// Branch and bound over the binary variables (best first, branching on the variable closest to one half), convex and non-convex variant.
#include <cmath>
#include <string>
#include <iostream>
#include <algorithm>
#include <solver/optimizer/BnBSolver.hpp>
#include <solver/optimizer/NcvxBnBSolver.hpp>
using namespace solver;
namespace spec {

//@ solver::BnBSolver::createBranches
void createBranches(BnBSolver& s, int parent)
{
  // the new node takes value one, the parent continues with value zero; both inherit the parent's bounds
  const int k = s.iteration_, var = s.nodes_[parent].partition_id_;
  s.binvars_mat_id_.col(k) = s.binvars_mat_id_.col(parent);
  s.binvars_mat_id_(var, parent) = 0;
  s.binvars_mat_id_(var, k) = 1;
  node& n = s.nodes_[k];
  n.status_ = Status::NotSolved;
  n.upper_bound_ = s.nodes_[parent].upper_bound_;
  n.lower_bound_ = s.nodes_[parent].lower_bound_;
  s.nodes_[parent].status_ = Status::NotSolved;
}
//@ solver::BnBSolver::selectNodeToExplore
int selectNodeToExplore(BnBSolver& s)
{
  int arg = -1;
  double best = SolverSetting::inf;
  for (int k=0; k<s.iteration_+1; k++) {
    if (!(s.nodes_[k].lower_bound_ < best)) { continue; }
    if (s.nodes_[k].status_ != Status::SolvedBranchable) { continue; }
    best = s.nodes_[k].lower_bound_;
    arg = k;
  }
  return arg;
}
//@ solver::BnBSolver::getProblemLowerBound
double getProblemLowerBound(BnBSolver& s)
{
  double lo = SolverSetting::inf;
  for (int k=0; k<s.iteration_+1; k++) { if (s.nodes_[k].lower_bound_ < lo) { lo = s.nodes_[k].lower_bound_; } }
  return lo;
}
//@ solver::BnBSolver::selectPartitionVariable
void selectPartitionVariable(BnBSolver& s, int& id, double& val)
{
  // the binary variable closest to one half
  double dist = 1.0;
  for (int v=0; v<s.nbin_vars_; v++) {
    const double x = s.interior_point_solver_->opt_.x()[s.binvars_ids_[v]];
    if (std::fabs(x - 0.5) < dist) { id = v; val = x; dist = std::fabs(x - 0.5); }
  }
}
//@ solver::BnBSolver::updateProblemData
void updateProblemData(BnBSolver& s, const Eigen::Ref<const Eigen::VectorXi>& d)
{
  // -x <= -lb and x <= ub
  for (int v=0; v<s.nbin_vars_; v++) {
    if (d[v] == 1) { s.interior_point_solver_->updateEquilH(2*v, -1.0); s.interior_point_solver_->updateEquilH(2*v+1, 1.0); }
    else if (d[v] == 0) { s.interior_point_solver_->updateEquilH(2*v, 0.0); s.interior_point_solver_->updateEquilH(2*v+1, 0.0); }
    else if (d[v] == -1) { s.interior_point_solver_->updateEquilH(2*v, 0.0); s.interior_point_solver_->updateEquilH(2*v+1, 1.0); }
    else { throw std::runtime_error("decision"); }
  }
}
//@ solver::BnBSolver::storeSolution
void storeSolution(BnBSolver& s) { s.opt_ = s.interior_point_solver_->opt_; s.optimization_info_ = s.interior_point_solver_->optimization_info_; }
//@ solver::BnBSolver::loadSolution
void loadSolution(BnBSolver& s) { s.interior_point_solver_->opt_ = s.opt_; s.interior_point_solver_->optimization_info_ = s.optimization_info_; }
//@ solver::BnBSolver::updateNodeBounds
void updateNodeBounds(BnBSolver& s, int k)
{
  node& n = s.nodes_[k];
  s.updateProblemData(s.binvars_mat_id_.col(k));
  s.opt_status_ = (*s.interior_point_solver_).optimize();
  if (s.opt_status_ != ExitCode::Optimal && s.opt_status_ != ExitCode::OptimalInacc && s.opt_status_ != ExitCode::ReachMaxIters) {
    // nothing to be found below this node
    n.status_ = Status::SolvedNonBranchable;
    n.lower_bound_ = SolverSetting::inf;
    n.upper_bound_ = SolverSetting::inf;
    return;
  }
  n.lower_bound_ = s.interior_point_solver_->optimization_info_.primal_cost_;
  bool integral = true;
  for (int v=0; v<s.nbin_vars_; v++) {
    const double x = s.interior_point_solver_->opt_.x()[s.binvars_ids_[v]];
    s.binvars_vec_id_[v] = std::round(x);
    if (!(std::fabs(x - s.binvars_vec_id_[v]) < s.interior_point_solver_->setting_->get(SolverDoubleParam_BnBIntegerTol))) { integral = false; }
  }
  bool rounded = false;
  if (!integral) {
    s.selectPartitionVariable(n.partition_id_, n.partition_val_);
    n.status_ = Status::SolvedBranchable;
    s.updateProblemData(s.binvars_vec_id_);
    s.opt_status_ = (*s.interior_point_solver_).optimize();
    if (s.opt_status_ == ExitCode::Optimal || s.opt_status_ == ExitCode::OptimalInacc) {
      rounded = true;
      n.upper_bound_ = s.interior_point_solver_->optimization_info_.primal_cost_;
    }
  } else {
    n.status_ = Status::SolvedNonBranchable;
    n.upper_bound_ = s.interior_point_solver_->optimization_info_.primal_cost_;
  }
  if (s.prob_upper_bound_ > n.upper_bound_) {
    s.prob_upper_bound_ = n.upper_bound_;
    s.storeSolution();
  }
  // the rounded point is an incumbent, not a bound of the node
  if (rounded) { n.upper_bound_ = SolverSetting::inf; }
}
//@ solver::BnBSolver::optimilityCheck
int optimilityCheck(BnBSolver& s, int k)
{
  const bool gap = s.prob_upper_bound_ - s.prob_lower_bound_ > s.interior_point_solver_->setting_->get(SolverDoubleParam_BnBAbsSubOptGap) && std::fabs(s.prob_upper_bound_/s.prob_lower_bound_ - 1.0) > s.interior_point_solver_->setting_->get(SolverDoubleParam_BnBRelSubOptGap);
  return gap && k >= 0 && s.iteration_ < s.interior_point_solver_->setting_->get(SolverIntParam_BnBMaxIters) - 1;
}
//@ solver::BnBSolver::exitcode
ExitCode exitcode(BnBSolver& s)
{
  const bool exact = s.iteration_ < s.interior_point_solver_->setting_->get(SolverIntParam_BnBMaxIters) - 1;
  if (!std::isinf(s.prob_upper_bound_)) { return exact ? ExitCode::Optimal : ExitCode::OptimalInacc; }
  if (s.prob_upper_bound_ >= 0) { return exact ? ExitCode::PrimalInf : ExitCode::PrimalInfInacc; }
  return exact ? ExitCode::DualInf : ExitCode::DualInfInacc;
}
//@ solver::BnBSolver::initializeRootNode
void initializeRootNode(BnBSolver& s)
{
  s.prob_upper_bound_ = SolverSetting::inf;
  s.prob_lower_bound_ = -SolverSetting::inf;
  s.nodes_[0].upper_bound_ = SolverSetting::inf;
  s.nodes_[0].lower_bound_ = -SolverSetting::inf;
  s.nodes_[0].status_ = Status::NotSolved;
  s.binvars_mat_id_.setConstant(-1);
  s.binvars_vec_id_.setConstant(-1);
}
//@ solver::BnBSolver::optimize
ExitCode optimize(BnBSolver& s)
{
  s.node_id_ = 0;
  s.iteration_ = 0;
  s.initializeRootNode();
  s.updateNodeBounds(0);
  s.prob_lower_bound_ = s.nodes_[0].lower_bound_;
  while (s.optimilityCheck(s.node_id_)) {
    s.iteration_ += 1;
    s.createBranches(s.node_id_);
    s.updateNodeBounds(s.node_id_);
    s.updateNodeBounds(s.iteration_);
    s.prob_lower_bound_ = s.getProblemLowerBound();
    s.node_id_ = s.selectNodeToExplore();
  }
  s.loadSolution();
  return s.exitcode();
}
//@ solver::BnBSolver::initialize
void initialize(BnBSolver& s, InteriorPointSolver& ip, const std::vector<std::shared_ptr<Var>>& bins)
{
  s.interior_point_solver_ = &ip;
  const int cap = ip.setting_->get(SolverIntParam_BnBMaxIters);
  s.prob_upper_bound_ = SolverSetting::inf;
  s.nbin_vars_ = bins.size();
  s.binvars_ids_.resize(bins.size());
  s.binvars_vec_id_.resize(bins.size());
  s.binvars_mat_id_.resize(bins.size(), cap);
  s.nodes_.resize(cap);
  s.opt_.initialize(*ip.cone_);
  for (int v=0; v<s.nbin_vars_; v++) { s.binvars_ids_[v] = bins[v]->get(SolverIntParam_ColNum); }
}

//@ solver::NcvxBnBSolver::createBranches
void createBranches(NcvxBnBSolver& s, int parent)
{
  // the new node takes value one, the parent continues with value zero; both inherit the parent's bounds
  const int k = s.iteration_, var = s.nodes_[parent].partition_id_;
  s.binvars_mat_id_.col(k) = s.binvars_mat_id_.col(parent);
  s.binvars_mat_id_(var, parent) = 0;
  s.binvars_mat_id_(var, k) = 1;
  node& n = s.nodes_[k];
  n.status_ = Status::NotSolved;
  n.upper_bound_ = s.nodes_[parent].upper_bound_;
  n.lower_bound_ = s.nodes_[parent].lower_bound_;
  s.nodes_[parent].status_ = Status::NotSolved;
}
//@ solver::NcvxBnBSolver::selectNodeToExplore
int selectNodeToExplore(NcvxBnBSolver& s)
{
  int arg = -1;
  double best = SolverSetting::inf;
  for (int k=0; k<s.iteration_+1; k++) {
    if (!(s.nodes_[k].lower_bound_ < best)) { continue; }
    if (s.nodes_[k].status_ != Status::SolvedBranchable) { continue; }
    best = s.nodes_[k].lower_bound_;
    arg = k;
  }
  return arg;
}
//@ solver::NcvxBnBSolver::getProblemLowerBound
double getProblemLowerBound(NcvxBnBSolver& s)
{
  double lo = SolverSetting::inf;
  for (int k=0; k<s.iteration_+1; k++) { if (s.nodes_[k].lower_bound_ < lo) { lo = s.nodes_[k].lower_bound_; } }
  return lo;
}
//@ solver::NcvxBnBSolver::selectPartitionVariable
void selectPartitionVariable(NcvxBnBSolver& s, int& id, double& val)
{
  // the binary variable closest to one half
  double dist = 1.0;
  for (int v=0; v<s.nbin_vars_; v++) {
    const double x = s.conic_problem_->ip_solver_.opt_.x()[s.binvars_ids_[v]];
    if (std::fabs(x - 0.5) < dist) { id = v; val = x; dist = std::fabs(x - 0.5); }
  }
}
//@ solver::NcvxBnBSolver::updateProblemData
void updateProblemData(NcvxBnBSolver& s, const Eigen::Ref<const Eigen::VectorXi>& d)
{
  // -x <= -lb and x <= ub
  for (int v=0; v<s.nbin_vars_; v++) {
    if (d[v] == 1) { s.conic_problem_->bin_vars_lower_bound_[v] = -1.0; s.conic_problem_->bin_vars_upper_bound_[v] = 1.0; }
    else if (d[v] == 0) { s.conic_problem_->bin_vars_lower_bound_[v] = 0.0; s.conic_problem_->bin_vars_upper_bound_[v] = 0.0; }
    else if (d[v] == -1) { s.conic_problem_->bin_vars_lower_bound_[v] = 0.0; s.conic_problem_->bin_vars_upper_bound_[v] = 1.0; }
    else { throw std::runtime_error("decision"); }
  }
}
//@ solver::NcvxBnBSolver::storeSolution
void storeSolution(NcvxBnBSolver& s) { s.opt_ = s.conic_problem_->ip_solver_.opt_; s.optimization_info_ = s.conic_problem_->ip_solver_.optimization_info_; }
//@ solver::NcvxBnBSolver::loadSolution
void loadSolution(NcvxBnBSolver& s) { s.conic_problem_->ip_solver_.opt_ = s.opt_; s.conic_problem_->ip_solver_.optimization_info_ = s.optimization_info_; }
//@ solver::NcvxBnBSolver::updateNodeBounds
void updateNodeBounds(NcvxBnBSolver& s, int k)
{
  node& n = s.nodes_[k];
  s.updateProblemData(s.binvars_mat_id_.col(k));
  s.opt_status_ = (*s.conic_problem_).optimize();
  if (s.opt_status_ != ExitCode::Optimal && s.opt_status_ != ExitCode::OptimalInacc && s.opt_status_ != ExitCode::ReachMaxIters) {
    // nothing to be found below this node
    n.status_ = Status::SolvedNonBranchable;
    n.lower_bound_ = SolverSetting::inf;
    n.upper_bound_ = SolverSetting::inf;
    return;
  }
  n.lower_bound_ = s.conic_problem_->ip_solver_.optimization_info_.primal_cost_;
  bool integral = true;
  for (int v=0; v<s.nbin_vars_; v++) {
    const double x = s.conic_problem_->ip_solver_.opt_.x()[s.binvars_ids_[v]];
    s.binvars_vec_id_[v] = std::round(x);
    if (!(std::fabs(x - s.binvars_vec_id_[v]) < s.conic_problem_->stgs_.get(SolverDoubleParam_BnBIntegerTol))) { integral = false; }
  }
  bool rounded = false;
  if (!integral) {
    s.selectPartitionVariable(n.partition_id_, n.partition_val_);
    n.status_ = Status::SolvedBranchable;
    s.updateProblemData(s.binvars_vec_id_);
    s.opt_status_ = (*s.conic_problem_).optimize();
    if (s.opt_status_ == ExitCode::Optimal || s.opt_status_ == ExitCode::OptimalInacc) {
      rounded = true;
      n.upper_bound_ = s.conic_problem_->ip_solver_.optimization_info_.primal_cost_;
    }
  } else {
    n.status_ = Status::SolvedNonBranchable;
    n.upper_bound_ = s.conic_problem_->ip_solver_.optimization_info_.primal_cost_;
  }
  if (s.prob_upper_bound_ > n.upper_bound_) {
    s.prob_upper_bound_ = n.upper_bound_;
    s.storeSolution();
  }
  // the rounded point is an incumbent, not a bound of the node
  if (rounded) { n.upper_bound_ = SolverSetting::inf; }
}
//@ solver::NcvxBnBSolver::optimilityCheck
int optimilityCheck(NcvxBnBSolver& s, int k)
{
  const bool gap = s.prob_upper_bound_ - s.prob_lower_bound_ > s.conic_problem_->stgs_.get(SolverDoubleParam_BnBAbsSubOptGap) && std::fabs(s.prob_upper_bound_/s.prob_lower_bound_ - 1.0) > s.conic_problem_->stgs_.get(SolverDoubleParam_BnBRelSubOptGap);
  return gap && k >= 0 && s.iteration_ < s.conic_problem_->stgs_.get(SolverIntParam_BnBMaxIters) - 1;
}
//@ solver::NcvxBnBSolver::exitcode
ExitCode exitcode(NcvxBnBSolver& s)
{
  const bool exact = s.iteration_ < s.conic_problem_->stgs_.get(SolverIntParam_BnBMaxIters) - 1;
  if (!std::isinf(s.prob_upper_bound_)) { return exact ? ExitCode::Optimal : ExitCode::OptimalInacc; }
  if (s.prob_upper_bound_ >= 0) { return exact ? ExitCode::PrimalInf : ExitCode::PrimalInfInacc; }
  return exact ? ExitCode::DualInf : ExitCode::DualInfInacc;
}
//@ solver::NcvxBnBSolver::initializeRootNode
void initializeRootNode(NcvxBnBSolver& s)
{
  s.prob_upper_bound_ = SolverSetting::inf;
  s.prob_lower_bound_ = -SolverSetting::inf;
  s.nodes_[0].upper_bound_ = SolverSetting::inf;
  s.nodes_[0].lower_bound_ = -SolverSetting::inf;
  s.nodes_[0].status_ = Status::NotSolved;
  s.binvars_mat_id_.setConstant(-1);
  s.binvars_vec_id_.setConstant(-1);
}
//@ solver::NcvxBnBSolver::optimize
ExitCode optimize(NcvxBnBSolver& s)
{
  s.node_id_ = 0;
  s.iteration_ = 0;
  s.initializeRootNode();
  s.updateNodeBounds(0);
  s.prob_lower_bound_ = s.nodes_[0].lower_bound_;
  while (s.optimilityCheck(s.node_id_)) {
    s.iteration_ += 1;
    s.createBranches(s.node_id_);
    s.updateNodeBounds(s.node_id_);
    s.updateNodeBounds(s.iteration_);
    s.prob_lower_bound_ = s.getProblemLowerBound();
    s.node_id_ = s.selectNodeToExplore();
  }
  s.loadSolution();
  return s.exitcode();
}
//@ solver::NcvxBnBSolver::initialize
void initialize(NcvxBnBSolver& s, ConicProblem& p)
{
  s.conic_problem_ = &p;
  const int cap = p.stgs_.get(SolverIntParam_BnBMaxIters);
  s.prob_upper_bound_ = SolverSetting::inf;
  s.nbin_vars_ = p.bin_vars_.size();
  s.binvars_ids_.resize(s.nbin_vars_);
  s.binvars_vec_id_.resize(s.nbin_vars_);
  s.binvars_mat_id_.resize(s.nbin_vars_, cap);
  s.nodes_.resize(cap);
  s.opt_.initialize(p.cone_);
  for (int v=0; v<s.nbin_vars_; v++) { s.binvars_ids_[v] = p.bin_vars_[v]->get(SolverIntParam_ColNum); }
}
}

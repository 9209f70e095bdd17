// Analysis-only translation unit: instantiates the header-only real-time solver so that its
// members are type-resolved.  Parsed, never compiled to code or run.
#include <yaml-cpp/yaml.h>
#include <solver/interface/Solver.hpp>
template class rt_solver::RtModel<11, 13, 5>;
template class rt_solver::RtHQPSolver<13, 5, 11>;
template class rt_solver::RtQPSolver<18, 0, 13>;
void kda_use_rt(rt_solver::RtModel<11, 13, 5>& m) {
  (void)m.addLinConstr(m.getVar(0), ">", 1.0, 0);
}

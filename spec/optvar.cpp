// Blocks of decision variables: a rows x cols matrix of variables stored column by column from a start index.
#include <solver/interface/OptVar.hpp>

using namespace solver;

namespace spec {
typedef OptimizationVariable O;
typedef O::OptVector V;
typedef O::OptMatrix M;

static void place(O& o, const char& type, int rows, int cols, int& start)
{
  o.type_ = type;
  o.rows_ = rows;
  o.cols_ = cols;
  o.indexPosition_ = start;
  start = start + cols*rows;
}

//@ solver::OptimizationVariable::initialize/6 ~double,double,int%& as constant-bounds
void constant_bounds(O& o, const char& type, int rows, int cols, double lb, double ub, int& start)
{
  place(o, type, rows, cols, start);
  o.lBndMat_.resize(rows, cols); o.lBndMat_.setConstant(lb);
  o.uBndMat_.resize(rows, cols); o.uBndMat_.setConstant(ub);
  o.guessMat_.resize(rows, cols); o.guessMat_.setZero();
}

//@ solver::OptimizationVariable::initialize/6 ~int,int,Eigen::Matrix<double,%-1,%1 as per-row-bounds
void per_row_bounds(O& o, const char& type, int rows, int cols, V& lb, V& ub, int& start)
{
  place(o, type, rows, cols, start);
  o.lBndMat_.resize(rows, cols); o.lBndMat_.setZero(); o.lBndMat_.colwise() = lb.block(0,0,rows,1);
  o.uBndMat_.resize(rows, cols); o.uBndMat_.setZero(); o.uBndMat_.colwise() = ub.block(0,0,rows,1);
  o.guessMat_.resize(rows, cols); o.guessMat_.setZero();
}

//@ solver::OptimizationVariable::initialize/6 ~int,int,Eigen::Matrix<double,%-1,%-1 as per-element-bounds
void per_element_bounds(O& o, const char& type, int rows, int cols, M& lb, M& ub, int& start)
{
  place(o, type, rows, cols, start);
  o.lBndMat_.resize(rows, cols); o.lBndMat_ = lb.block(0,0,rows,cols);
  o.uBndMat_.resize(rows, cols); o.uBndMat_ = ub.block(0,0,rows,cols);
  o.guessMat_.resize(rows, cols); o.guessMat_.setZero();
}

//@ solver::OptimizationVariable::initialize/7 ~int%&,double as constant-bounds-constant-guess
void constant_bounds_constant_guess(O& o, const char& type, int rows, int cols, double lb, double ub, int& start, double guess)
{
  place(o, type, rows, cols, start);
  o.lBndMat_.resize(rows, cols); o.lBndMat_.setConstant(lb);
  o.uBndMat_.resize(rows, cols); o.uBndMat_.setConstant(ub);
  o.guessMat_.resize(rows, cols); o.guessMat_.setConstant(guess);
}

//@ solver::OptimizationVariable::initialize/7 ~double,double,int%&,Eigen as constant-bounds-guess
void constant_bounds_guess(O& o, const char& type, int rows, int cols, double lb, double ub, int& start, M& guess)
{
  place(o, type, rows, cols, start);
  o.lBndMat_.resize(rows, cols); o.lBndMat_.setConstant(lb);
  o.uBndMat_.resize(rows, cols); o.uBndMat_.setConstant(ub);
  o.guessMat_.resize(rows, cols); o.guessMat_ = guess.block(0,0,rows,cols);
}

//@ solver::OptimizationVariable::initialize/7 ~int,int,Eigen::Matrix<double,%-1,%1 as per-row-bounds-guess
void per_row_bounds_guess(O& o, const char& type, int rows, int cols, V& lb, V& ub, int& start, M& guess)
{
  place(o, type, rows, cols, start);
  o.lBndMat_.resize(rows, cols); o.lBndMat_.setZero(); o.lBndMat_.colwise() = lb.block(0,0,rows,1);
  o.uBndMat_.resize(rows, cols); o.uBndMat_.setZero(); o.uBndMat_.colwise() = ub.block(0,0,rows,1);
  o.guessMat_.resize(rows, cols); o.guessMat_ = guess.block(0,0,rows,cols);
}

//@ solver::OptimizationVariable::initialize/7 ~int,int,Eigen::Matrix<double,%-1,%-1 as per-element-bounds-guess
void per_element_bounds_guess(O& o, const char& type, int rows, int cols, M& lb, M& ub, int& start, M& guess)
{
  place(o, type, rows, cols, start);
  o.lBndMat_.resize(rows, cols); o.lBndMat_ = lb.block(0,0,rows,cols);
  o.uBndMat_.resize(rows, cols); o.uBndMat_ = ub.block(0,0,rows,cols);
  o.guessMat_.resize(rows, cols); o.guessMat_ = guess.block(0,0,rows,cols);
}

//@ solver::OptimizationVariable::id
int id(const O& o, int row, int col)
{
  const int r = row >= o.rows_ ? o.rows_ - 1 : row <= 0 ? 0 : row;
  const int c = col >= o.cols_ ? o.cols_ - 1 : col <= 0 ? 0 : col;
  return o.indexPosition_ + r + c*o.rows_;
}

//@ solver::OptimizationVariable::constraintIndexToCurrentValue
void fix(O& o, int k)
{
  o.lBndMat_.col(k) = o.guessMat_.col(k);
  o.uBndMat_.col(k) = o.guessMat_.col(k);
}

//@ solver::OptimizationVariable::setAndConstraintIndexToCurrentValue/2 ~(int,double) as constant
void setfix(O& o, int k, double x)
{
  o.guessMat_.col(k).setConstant(x);
  o.lBndMat_.col(k) = o.guessMat_.col(k);
  o.uBndMat_.col(k) = o.guessMat_.col(k);
}

//@ solver::OptimizationVariable::setAndConstraintIndexToCurrentValue/2 ~(int,Eigen as vector
void setfixv(O& o, int k, V& x)
{
  o.guessMat_.col(k) = x;
  o.lBndMat_.col(k) = o.guessMat_.col(k);
  o.uBndMat_.col(k) = o.guessMat_.col(k);
}

//@ solver::OptimizationVariable::getValues
void values(const O& o, M& lb, M& ub, M& guess, int& n, char& type)
{
  lb = o.lBndMat_;
  ub = o.uBndMat_;
  guess = o.guessMat_;
  n = o.rows_*o.cols_;
  type = o.type_;
}

//@ solver::OptimizationVariable::getNumRows
int rows(const O& o) { return o.rows_; }

//@ solver::OptimizationVariable::getNumCols
int cols(const O& o) { return o.cols_; }

//@ solver::OptimizationVariable::getStartIndex
int start(const O& o) { return o.indexPosition_; }

//@ solver::OptimizationVariable::getNumElements
int elements(const O& o) { return o.cols_*o.rows_; }

//@ solver::OptimizationVariable::getGuessValue
void guess(const O& o, M& x) { x.resize(o.rows_, o.cols_); x = o.guessMat_; }

//@ solver::OptimizationVariable::getGuessValueByCol
void guesscol(const O& o, int k, V& x) { x.resize(o.rows_, 1); x = o.guessMat_.col(k); }

//@ solver::OptimizationVariable::setGuessValue
void setguess(O& o, const M& x) { o.guessMat_ = x.block(0,0,o.rows_,o.cols_); }
}

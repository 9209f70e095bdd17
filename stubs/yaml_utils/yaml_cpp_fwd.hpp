// Analysis-only stand-in for the external package yaml_utils: declarations so that the
// front end can resolve calls.  Never linked, never run.
#pragma once
#include <iomanip>
#include <string>
#include <Eigen/Eigen>
#include <yaml-cpp/yaml.h>
namespace YAML {
template <typename T> T ReadParameter(const YAML::Node& node, const std::string& name);
template <typename T> void ReadParameter(const YAML::Node& node, const std::string& name, T& value, bool optional = false);
template <typename _Scalar, int _Rows, int _Cols, int _Options, int _MaxRows, int _MaxCols>
struct convert<Eigen::Matrix<_Scalar, _Rows, _Cols, _Options, _MaxRows, _MaxCols>> {
  typedef Eigen::Matrix<_Scalar, _Rows, _Cols, _Options, _MaxRows, _MaxCols> M;
  static Node encode(const M&);
  static bool decode(const Node&, M&);
};
}

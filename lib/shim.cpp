// Operators of the C++ API that Python's operator protocol hides (x <= 3 and 3 >= x reach the same method there),
// and C++ functions which are not bound. Built from /repo's headers, linked with the library under check.
#include <pinocchio/fwd.hpp>
#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>
#include <Eigen/Dense>
#include "placo/problem/problem.h"
#include "placo/problem/expression.h"
#include "placo/problem/constraint.h"

using namespace placo::problem;
typedef const Expression& E;
typedef Eigen::VectorXd V;

BOOST_PYTHON_MODULE(placo_cxx)
{
  using boost::python::def;
  def("le_ed", +[](E e, double f) { return e <= f; });
  def("le_de", +[](double f, E e) { return f <= e; });
  def("ge_ed", +[](E e, double f) { return e >= f; });
  def("ge_de", +[](double f, E e) { return f >= e; });
  def("eq_ed", +[](E e, double f) { return e == f; });
  def("eq_de", +[](double f, E e) { return f == e; });
  def("le_ev", +[](E e, V v) { return e <= v; });
  def("le_ve", +[](V v, E e) { return v <= e; });
  def("ge_ev", +[](E e, V v) { return e >= v; });
  def("ge_ve", +[](V v, E e) { return v >= e; });
  def("eq_ev", +[](E e, V v) { return e == v; });
  def("eq_ve", +[](V v, E e) { return v == e; });
  def("le_ee", +[](E a, E b) { return a <= b; });
  def("ge_ee", +[](E a, E b) { return a >= b; });
  def("eq_ee", +[](E a, E b) { return a == b; });
}

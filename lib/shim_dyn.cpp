// C++ entry points of the solvers which are not bound to Python
#include <boost/python.hpp>
#include "placo/dynamics/dynamics_solver.h"
#include "placo/kinematics/kinematics_solver.h"

using namespace boost::python;
using namespace placo;

BOOST_PYTHON_MODULE(placo_cxx_dyn)
{
  def("add_contact", +[](dynamics::DynamicsSolver& s, dynamics::Contact& c) { s.add_contact(c); });
}

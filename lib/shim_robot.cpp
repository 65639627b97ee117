// C++ functions of the robot classes which are not bound to Python.
#include <pinocchio/fwd.hpp>
#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>
#include "placo/humanoid/humanoid_robot.h"

using namespace placo;


BOOST_PYTHON_MODULE(placo_cxx_robot)
{
  using boost::python::def;
  def("joint_jacobian_time_variation", +[](model::RobotWrapper& r, std::string joint, std::string ref) -> Eigen::MatrixXd { return r.joint_jacobian_time_variation(joint, ref); });
  def("camera_look_at", +[](humanoid::HumanoidRobot& r, Eigen::Vector3d target) {
        double pan = 1234., tilt = 1234.;
        bool ok = r.camera_look_at(pan, tilt, target);
        return boost::python::make_tuple(ok, pan, tilt);
      });
}

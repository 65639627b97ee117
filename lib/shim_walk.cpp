// C++ functions of footsteps, supports and walk trajectories which are not bound to Python.
#include <pinocchio/fwd.hpp>
#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>
#include "placo/humanoid/walk_pattern_generator.h"
#include "placo/humanoid/walk_tasks.h"

using namespace placo::humanoid;
using placo::kinematics::KinematicsSolver;
typedef WalkPatternGenerator::Trajectory Tr;
typedef FootstepsPlanner::Support Sup;
typedef FootstepsPlanner::Footstep Fs;
typedef HumanoidRobot::Side Side;

BOOST_PYTHON_MODULE(placo_cxx_walk)
{
  using boost::python::def;
  def("footstep_eq", +[](Fs& a, Fs& b) { return a == b; });
  def("support_eq", +[](Sup& a, Sup& b) { return a == b; });
  def("transform_support", +[](Eigen::Matrix4d M, Sup& s) {
        Eigen::Affine3d T;
        T.matrix() = M;
        return T * s;
      });
  def("remaining_supports", +[](Tr& t, double x) { return t.remaining_supports(x); });
  def("is_flying", +[](Tr& t, Side s, double x) { return t.is_flying(s, x); });
  def("get_T_world_foot", +[](Tr& t, Side s, double x) -> Eigen::Matrix4d { return t.get_T_world_foot(s, x).matrix(); });
  def("get_yaw_world_left", +[](Tr& t, double x) { return t.get_yaw_world_left(x); });
  def("get_yaw_world_right", +[](Tr& t, double x) { return t.get_yaw_world_right(x); });
  def("get_yaw_world_foot", +[](Tr& t, Side s, double x) { return t.get_yaw_world_foot(s, x); });
  def("set_com_delay", +[](WalkTasks& t, double d) { t.com_delay = d; });
  def("set_pid", +[](WalkTasks& t, double p, double i, double d, double l) { t.K_p = p, t.K_i = i, t.K_d = d, t.lambda = l; });
  def("update_tasks_and_pid", +[](WalkTasks& t, Tr& tr, double x, Eigen::Vector2d dcm, double omega, double elapsed) {
        t.update_tasks_and_pid(tr, x, dcm, omega, elapsed);
      });
  // what a walk task object makes of whatever was in its memory before
  def("pid_on_used_memory", +[](double fill, KinematicsSolver& s, HumanoidRobot& r, Tr& tr, double x, Eigen::Vector2d dcm, double omega, double elapsed) -> Eigen::Vector3d {
        std::vector<double> memory(sizeof(WalkTasks) / sizeof(double) + 4, fill);
        WalkTasks* t = new (memory.data() + (reinterpret_cast<uintptr_t>(memory.data()) % 16 ? 1 : 0)) WalkTasks;
        t->K_p = .5, t->K_i = .2, t->K_d = .1;
        t->initialize_tasks(&s, &r);
        t->update_tasks_and_pid(tr, x, dcm, omega, elapsed);
        Eigen::Vector3d target = t->com_task->target_world;
        t->remove_tasks();
        t->~WalkTasks();
        return target;
      });
  def("get_yaw_world_trunk", +[](Tr& t, double x) { return t.get_yaw_world_trunk(x); });
}

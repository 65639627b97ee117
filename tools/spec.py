"""The properties and their checks, in one place. `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from it."""

S = []


def P(id, title, statement, over, qtext, tests, files, mech, how, note):
    S.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, tests=tests, files=files.split(), mech=mech, how=how, note=note))


PB, TL, MD, KI, DY, HU = ("src/placo/" + x + "/" for x in ("problem", "tools", "model", "kinematics", "dynamics", "humanoid"))
f = lambda d, *n: " ".join(d + x for x in n)

P("P01", "Expressions denote affine maps under every operator and combination",
  "An expression built from decision variables with any sequence of sums, differences, products by scalars, vectors and matrices, slicing, stacking, row sums and means evaluates, for every value of the variables, to exactly what the corresponding affine algebra gives. "
  "Operations on incompatible sizes or out of range slices are rejected with an error instead of reading memory out of bounds.",
  "inputs programs", "every program over the expression operators, every variable value (affine maps are decided by a spanning set of points)",
  "the tests evaluate a handful of hand written expressions; operator combinations, operand kinds and invalid operands are a product space they only touch",
  f(PB, "expression.cpp", "expression.h", "variable.cpp") + " bindings/expose-problem.cpp", [("Expression operators", PB + "expression.cpp"), ("Variable::expr / value", PB + "variable.cpp")],
  "stateless exploration of operator programs on the real library next to an affine-map model",
  "bounded exhaustive: every operator program up to the depth, evaluated on an affine basis of points")

P("P02", "A QP solve returns the constrained optimum or reports infeasibility",
  "After a successful solve every hard equality and inequality holds, and no other feasible value has a lower weighted sum of the soft objectives plus the regularization. "
  "When the hard constraints admit no solution the solve reports an error, and per-constraint results (satisfaction flag, values of variables and expressions) are consistent with the returned solution.",
  "inputs configurations", "every set of constraints, priority, weight and comparison form",
  "the tests solve a few problems whose optimum is known; the optimality claim ranges over all combinations of constraints and options",
  f(PB, "problem.cpp", "problem.h", "constraint.cpp", "qp_error.cpp") + " bindings/expose-problem.cpp", [("Problem::solve", PB + "problem.cpp"), ("constraint creation by comparison", PB + "expression.cpp")],
  "exhaustive enumeration of constraint subsets, each solve checked against KKT conditions and an independent LP feasibility oracle",
  "bounded exhaustive over constraint subsets and solver options; optimality judged by an independent reference (active set enumeration)")

P("P03", "QP answers depend only on the current problem, not on its history",
  "For every history of adding variables and constraints, reconfiguring priorities and weights, clearing constraints, changing solver options and solving, a solve gives the same solution as a freshly built problem holding the same constraints. "
  "The equality elimination, sparsity and regularization options and the insertion order of constraints never change the solution beyond the regularization they introduce.",
  "histories configurations", "every sequence of operations on a problem object", "tests build each problem once and solve it once with default options",
  f(PB, "problem.cpp", "problem.h", "sparsity.cpp"), [("Problem::solve with rewrite_equalities / use_sparsity", PB + "problem.cpp"), ("clear_constraints, add_variable", PB + "problem.cpp")],
  "stateless exploration of operation histories on the real problem object against a rebuilt-from-scratch reference",
  "bounded exhaustive over operation sequences; every prefix compared with a reference solution")

P("P04", "Integrator and LIPM trajectories are the exact solutions of their dynamics",
  "For every order, horizon, time step, system matrix, initial state and start time, the expressions, values and trajectories of an integrator or of a linear inverted pendulum (CoM position, velocity, acceleration, ZMP, its derivative, DCM, jerk) agree with each other and with the exact solution of the linear dynamics under piecewise constant input, at every time of the horizon; past its ends, expressions go on with the nearest input and trajectories hold their end state. "
  "Chaining one pendulum from another starts exactly where the previous one stopped.",
  "inputs configurations", "all orders, horizons, steps, derivatives and evaluation times", "tests check one order-3 integrator and one pendulum at a few instants",
  f(PB, "integrator.cpp", "integrator.h") + " " + f(HU, "lipm.cpp", "lipm.h"), [("Integrator::expr / expr_t / value / Trajectory", PB + "integrator.cpp"), ("LIPM expressions and Trajectory", HU + "lipm.cpp")],
  "full enumeration of a configuration grid of the real integrator, compared with matrix exponentials",
  "bounded exhaustive over the configuration grid; oracle is an independent matrix exponential")

P("P05", "Polynomials and polygon membership constraints are exact",
  "A polynomial evaluates to its mathematical value and derivatives of every order for every coefficient vector, and polynomial expressions in an optimization problem denote the same values. "
  "Requiring a point to lie in a convex clockwise polygon, with any margin, admits exactly the points of the plane at that distance inside every edge.",
  "inputs", "all coefficient vectors, derivative orders, abscissas; all convex polygons, margins and points", "tests check one or two polynomials and one polygon",
  f(PB, "polygon_constraint.cpp", "problem_polynom.cpp") + " " + f(TL, "polynom.cpp"), [("Polynom::value", TL + "polynom.cpp"), ("PolygonConstraint::in_polygon(_xy)", PB + "polygon_constraint.cpp"), ("ProblemPolynom::expr", PB + "problem_polynom.cpp")],
  "full enumeration of coefficient vectors, polygons, margins and target points on the real code",
  "bounded exhaustive over discrete grids")

P("P06", "Sparsity descriptors denote exactly the columns that matter",
  "For every sequence of added column intervals and every sum of descriptors, the sparsity structure lists sorted, disjoint intervals whose union is exactly what was added. "
  "Detecting the sparsity of a matrix reports exactly its non-zero columns.",
  "histories inputs", "all interval sequences and zero patterns", "tests add three or four intervals in one order",
  f(PB, "sparsity.cpp", "sparsity.h"), [("Sparsity::add_interval, operator+", PB + "sparsity.cpp"), ("Sparsity::detect_columns_sparsity", PB + "sparsity.cpp")],
  "explicit enumeration of all interval sequences and column patterns, against a set model", "bounded exhaustive; the reference model is a plain set of columns")

P("P07", "Cubic splines interpolate their points after every history of edits",
  "After every sequence of adding points, clearing and querying, a spline passes through its points with the given velocities, is the cubic between two consecutive points, holds the end values outside, and its velocity and acceleration are the derivatives of its position; angular splines take the short way around. "
  "Adding a point in the past is rejected and leaves the spline unchanged.",
  "histories inputs", "all sequences of edits and queries, all evaluation times", "tests build one spline and sample it",
  f(TL, "cubic_spline.cpp", "cubic_spline.h", "cubic_spline_3d.cpp"), [("CubicSpline::add_point / build_splines / pos / vel / acc", TL + "cubic_spline.cpp"), ("CubicSpline3D", TL + "cubic_spline_3d.cpp")],
  "stateless exploration of edit/query histories on the real splines next to a Hermite model", "bounded exhaustive over operation sequences")

P("P08", "Planar segment predicates agree with exact geometry",
  "For every pair of segments, parallelism, collinearity, point membership, intersection of segments, lines and half lines and the returned intersection points agree with exact planar geometry.",
  "inputs", "all pairs of segments", "tests check a dozen hand drawn pairs", f(TL, "segment.cpp", "segment.h") + " bindings/expose-tools.cpp",
  [("Segment predicates", TL + "segment.cpp")], "full enumeration of all segment pairs on a grid, against exact rational arithmetic", "bounded exhaustive on the integer grid under two placements")

P("P09", "Frame, angle and axis-mask utilities are geometrically exact",
  "Angle wrapping, frame interpolation, yaw extraction, flattening on the floor, rotations built from an axis, best fitting transforms between point sets and axis masks return the mathematically defined result for every orientation, ratio, direction and mask, always as proper rotations.",
  "inputs", "all orientations, ratios, directions and mask strings", "tests check a few orientations",
  f(TL, "utils.cpp", "utils.h", "directions.cpp", "axises_mask.cpp"), [("utils", TL + "utils.cpp"), ("AxisesMask::apply", TL + "axises_mask.cpp")],
  "full enumeration of orientation, direction and mask grids on the real functions", "bounded exhaustive over discrete grids; oracle scipy rotations")

P("P10", "Robot state, limits and frames follow every history of edits and queries",
  "After every sequence of setting joints, velocities, accelerations, limits, the base pose or the pose of any frame, integrating, resetting and updating the kinematics, every getter returns what that history implies and frame placements are those of the last kinematics update. "
  "Queries never change the state nor the result of other queries, and unknown joint, frame or reference names are rejected without any effect.",
  "histories configurations", "every sequence of state operations and queries, on URDF and MJCF models", "tests set one or two values and read them back",
  f(MD, "robot_wrapper.cpp", "robot_wrapper.h") + " bindings/expose-robot-wrapper.cpp", [("state accessors, set_T_world_frame, integrate", MD + "robot_wrapper.cpp"), ("update_kinematics", MD + "robot_wrapper.cpp")],
  "stateless exploration of operation histories on the real robot object next to an independent kinematic model", "bounded exhaustive over operation sequences and over ordered pairs of queries; trusts pinocchio's forward kinematics")

P("P11", "Jacobians, their time variations and Hessians are the true derivatives",
  "In every configuration the frame, joint, relative position and CoM Jacobians (in each reference frame) are the derivatives of the corresponding placements, the time variations are their derivatives along the current velocity, frame Hessians are the derivatives of frame Jacobians, and the centroidal map gives the momentum about the CoM.",
  "configurations inputs", "every robot configuration, velocity, frame, joint and reference", "tests check the shapes or one configuration",
  f(MD, "robot_wrapper.cpp"), [("frame_jacobian, joint_jacobian, relative_position_jacobian", MD + "robot_wrapper.cpp"), ("com_jacobian, centroidal_map, get_frame_hessian", MD + "robot_wrapper.cpp")],
  "full enumeration of configurations x frames x references on the real robot, against differentiated forward kinematics", "bounded exhaustive over a configuration grid; oracle is numerical differentiation")

P("P12", "Robot dynamics quantities obey the laws of mechanics",
  "In every configuration, velocity, gravity and rotor setting the mass matrix is the symmetric positive definite kinetic energy matrix including reflected rotor inertias, gravity and non linear effects are the generalized forces at rest and at zero acceleration, and the torques computed for a fixed supporting frame balance the robot with no effort on the floating base.",
  "configurations inputs", "every configuration, velocity, gravity vector, rotor inertia and gear ratio", "tests do not check dynamics values beyond a few",
  f(MD, "robot_wrapper.cpp"), [("mass_matrix, generalized_gravity, non_linear_effects", MD + "robot_wrapper.cpp"), ("static_gravity_compensation_torques, torques_from_acceleration_with_fixed_frame", MD + "robot_wrapper.cpp")],
  "full enumeration of a configuration grid on the real robot, against body-by-body first principles", "bounded exhaustive over a configuration grid")

P("P13", "Self collisions and distances cover exactly the active pairs, exactly",
  "The active collision pairs are those listed (by link names or geometry indices), or all pairs of bodies on different joints, or none, as requested; invalid lists are rejected. "
  "For every active pair and configuration, the distance, witness points and bodies reported are geometrically exact and a self collision is reported exactly when bodies overlap.",
  "configurations inputs", "every pair list and configuration", "tests check the number of collisions on one model",
  f(MD, "robot_wrapper.cpp"), [("load_collision_pairs", MD + "robot_wrapper.cpp"), ("self_collisions, distances", MD + "robot_wrapper.cpp")],
  "full enumeration of pair lists x configurations on the real robot, against closed form sphere geometry", "bounded exhaustive; geometries limited to spheres, whose distances are known in closed form")

P("P14", "Kinematics tasks drive exactly the quantity they name, to first order",
  "For every task type, target, axis mask, frame, configuration and reachable target, a solve moves the robot by the least squares step which cancels, to first order, the difference between the current and the target value of the quantity the task names, and repeated solves converge to the target when it is reachable. "
  "The error reported by a task is that difference, targets read back are those that were set, and invalid targets or names are rejected.",
  "inputs configurations", "every task type, target, mask and configuration; tasks created by the solver, edited afterwards, built by the user or moved to another solver", "tests solve a few tasks on one robot and one configuration",
  f(KI, "task.cpp", "position_task.cpp", "orientation_task.cpp", "frame_task.cpp", "com_task.cpp", "axis_align_task.cpp", "gear_task.cpp", "joints_task.cpp", "distance_task.cpp", "wheel_task.cpp", "relative_position_task.cpp", "relative_orientation_task.cpp", "relative_frame_task.cpp", "manipulability_task.cpp", "regularization_task.cpp", "centroidal_momentum_task.cpp", "kinetic_energy_regularization_task.cpp", "kinematics_solver.cpp"),
  [("Task::update / A, b", KI + "task.cpp"), ("KinematicsSolver::solve", KI + "kinematics_solver.cpp")],
  "full enumeration of tasks x targets x masks x configurations on the real solver against independently differentiated kinematics", "bounded exhaustive over task/target/configuration grids; oracle uses forward kinematics only")

P("P15", "Combined kinematics tasks yield the weighted optimum under priorities",
  "For every combination of tasks, priorities and weights, a solve satisfies hard tasks exactly and minimises the weighted squared errors of soft tasks (including scaled tasks, whose common speed ratio stays in [0,1] and is as large as possible), in an order-independent way. "
  "Hard tasks which contradict each other or the hard constraints are reported as an error, leaving the robot where it was.",
  "inputs configurations", "every set of tasks, priorities, weights and insertion orders", "tests combine two or three tasks at once",
  f(KI, "kinematics_solver.cpp", "task.cpp") + " src/placo/tools/prioritized.cpp src/placo/problem/problem.cpp", [("KinematicsSolver::solve", KI + "kinematics_solver.cpp"), ("Prioritized", TL + "prioritized.cpp")],
  "full enumeration of task subsets x priorities x weights x orders on the real solver, each solve checked against an independently assembled QP and its KKT conditions", "bounded exhaustive over task sets; reference QP assembled from independent kinematics")

P("P16", "Kinematics steps respect joint, velocity and masking limits",
  "Whatever the tasks, when joint limits are enabled an applied step never brings a joint farther outside its limits, when velocity limits are enabled no joint moves faster than its limit allows within one time step, and masked joints or a masked floating base do not move. "
  "Enabling, disabling, masking and unmasking in any order has exactly the effect of the last setting.",
  "inputs histories configurations", "every configuration, limit, task set and order of option changes", "tests check one limited joint in one configuration",
  f(KI, "kinematics_solver.cpp") + " src/placo/model/robot_wrapper.cpp", [("compute_limits_inequalities, mask_dof, mask_fbase", KI + "kinematics_solver.cpp")],
  "full enumeration of option histories x limits x tasks x configurations on the real solver against an independent reference QP", "bounded exhaustive over option settings and configurations")

P("P17", "Kinematics constraints keep the robot in their admissible set",
  "Each kinematics constraint (CoM or DCM in a polygon with a margin, joint-space half-spaces, relative yaw, cone, distance, self collision distances) forbids, when hard, every step which leaves its admissible set to first order, costs a proportional penalty when soft, and changes nothing when it is not reached. "
  "Contradictory or ill-defined constraints are rejected, and started inside, closed loop steps stay inside up to second order effects.",
  "inputs configurations", "every constraint, parameter, task set and configuration; constraints created by the solver, edited afterwards or built by the user", "tests check a polygon and a cone in one scenario",
  f(KI, "com_polygon_constraint.cpp", "cone_constraint.cpp", "yaw_constraint.cpp", "distance_constraint.cpp", "joint_space_half_spaces_constraint.cpp", "avoid_self_collisions_constraint.cpp", "kinematics_solver.cpp"),
  [("add_constraint of each constraint", KI + "kinematics_solver.cpp")],
  "full enumeration of constraints x parameters x task sets x configurations, each solve checked against an independently assembled QP; closed loops checked on true geometry", "bounded exhaustive; the cone's linearisation is judged by its angle to first order")

P("P18", "A kinematics solver's history leaves no trace in its next step",
  "After any sequence of adding, retargeting, reconfiguring, masking and removing tasks and constraints (created by the solver or by the user), clearing, toggling limits, failed and successful solves, the next step is the one of a fresh solver holding the same tasks, constraints and options. "
  "Objects created by the user survive removal and clearing, an applied step updates configuration, velocity and acceleration consistently, and a failed or unapplied solve leaves the robot untouched.",
  "histories", "every sequence of operations on a solver object", "tests build a solver once and rarely remove or reconfigure anything",
  f(KI, "kinematics_solver.cpp", "kinematics_solver.h", "frame_task.cpp", "relative_frame_task.cpp") + " src/placo/tools/prioritized.cpp src/placo/problem/problem.cpp",
  [("add_task, remove_task, add_constraint, remove_constraint, clear", KI + "kinematics_solver.cpp"), ("solve(apply)", KI + "kinematics_solver.cpp")],
  "stateless exploration of operation histories on the real solver, each history compared with the reference QP of its final state", "bounded exhaustive over operation sequences")

P("P19", "Dynamics solutions obey the equation of motion and are optimal",
  "For every set of tasks, external actions, options and robot state, the returned accelerations, torques and contact forces satisfy the equation of motion (with gravity, damping, extra forces and the options chosen), apply no torque on a free floating base or no acceleration to a masked one, satisfy hard tasks, and minimise the weighted task errors and torques. "
  "Impossible sets are reported as failures which leave the robot as it was, and integrating advances the state by the returned accelerations.",
  "inputs configurations", "every state, task set, external action and option", "tests solve a few scenarios of one robot",
  f(DY, "dynamics_solver.cpp", "dynamics_solver.h", "contacts.cpp") + " src/placo/model/robot_wrapper.cpp", [("DynamicsSolver::solve", DY + "dynamics_solver.cpp"), ("PuppetContact, ExternalWrenchContact", DY + "contacts.cpp")],
  "full enumeration of task sets x external actions x options x states on the real solver, each solve checked against an independently assembled QP and its KKT conditions", "bounded exhaustive; reference QP from independent rigid body algorithms")

P("P20", "Dynamics limits bound torques, speeds and joint positions",
  "Whatever the tasks ask, enabled torque limits bound every actuated torque, velocity limits bound the speed after the step (or the torque-dependent speed when that option is enabled), and joint limits and self collision distances are approached only at speeds from which the declared safe deceleration can stop, beyond them the motion is pushed back. "
  "Limits which are not reached change nothing, limits overridden for a joint apply to that joint only, and closed loops started inside the limits stay inside.",
  "inputs configurations histories", "every combination of limits, states and demands", "tests check one limited scenario",
  f(DY, "dynamics_solver.cpp", "avoid_self_collisions_constraint.cpp"), [("compute_limits_inequalities", DY + "dynamics_solver.cpp"), ("AvoidSelfCollisionsConstraint", DY + "avoid_self_collisions_constraint.cpp")],
  "full enumeration of limit combinations x values x states x demands on the real solver against an independent reference QP; closed loop executions", "bounded exhaustive over grids; self collision terms judged exactly at zero velocity and through closed loops otherwise")

P("P21", "Contact forces are admissible for their contact type and optimal",
  "Every solution keeps the force of each active contact within what its type can transmit: any force for fixed and bilateral contacts, no pull, friction cone and centre of pressure inside the contact surface or segment for unilateral ones, in the surface frame set by the user, and nothing for inactive or removed contacts. "
  "Force, tangential and moment weights cost exactly the components they name, and demands no admissible force can meet are reported as failures.",
  "inputs configurations histories", "every contact type, parameter set, combination of contacts and state; contacts created by the solver or built by the user", "tests check the vertical force of a few contacts",
  f(DY, "contacts.cpp", "contacts.h", "dynamics_solver.cpp"), [("add_constraints of each contact", DY + "contacts.cpp")],
  "full enumeration of contacts x parameters x states and of (de)activation histories on the real solver against an independent reference QP", "bounded exhaustive")

P("P22", "Dynamics tasks impose the error dynamics they document",
  "For every task type, target position, velocity and acceleration, gains, mask and robot state, a hard task makes the named quantity accelerate as its documented proportional derivative law requires, including velocity-dependent terms, and closed loops converge to the target. "
  "Errors and error derivatives reported are the true ones, and editing targets, gains or joints changes exactly what was edited.",
  "inputs configurations histories", "every task type, target, gain, mask and state; tasks created by the solver or built by the user", "tests check convergence of a few tasks from rest",
  f(DY, "task.cpp", "position_task.cpp", "orientation_task.cpp", "com_task.cpp", "joints_task.cpp", "gear_task.cpp", "torque_task.cpp", "relative_position_task.cpp", "relative_orientation_task.cpp", "frame_task.cpp", "relative_frame_task.cpp"),
  [("Task::update", DY + "task.cpp"), ("error, derror, gains", DY + "task.cpp")],
  "full enumeration of tasks x targets x gains x masks x states on the real solver against independently differentiated kinematics", "bounded exhaustive; accelerations from an independent recursive algorithm")

P("P23", "A dynamics solver's history leaves no trace in its next solution",
  "After any sequence of adding, reconfiguring and removing tasks and contacts (created by the solver or by the user), (de)activating contacts, changing gains, limits and options, clearing, integrating, failed and successful solves, the next solution is the one of a fresh solver holding the same tasks, contacts and options in the same robot state. "
  "Objects created by the user survive removal and clearing, and solver-wide gain changes reach exactly the current tasks.",
  "histories", "every sequence of operations on a solver object", "tests build a solver once and never remove or deactivate anything",
  f(DY, "dynamics_solver.cpp", "dynamics_solver.h", "contacts.cpp", "frame_task.cpp") + " src/placo/problem/problem.cpp", [("remove_task, remove_contact, clear, set_kp, set_kd", DY + "dynamics_solver.cpp"), ("DynamicsSolver::solve", DY + "dynamics_solver.cpp")],
  "stateless exploration of operation histories on the real solver, each history compared with the reference QP of its final state", "bounded exhaustive over operation sequences")

P("P24", "Footstep plans stay steppable, keep the feet apart and arrive",
  "Every planned step lies in the configured envelope of forward, lateral and turning steps, is a scaled down version of the one asked, shortened no more than the envelope and the space between the feet require, and alternates feet starting from the current ones. "
  "Two footsteps are reported overlapping exactly when the feet intersect, repeated steps are as many as asked, a plan towards a target ends exactly on it, and mirrored requests give mirrored plans.",
  "inputs", "every step request, parameter set, starting pose and target", "tests do not cover the planners",
  f(HU, "footsteps_planner.cpp", "footsteps_planner_naive.cpp", "footsteps_planner_repetitive.cpp", "humanoid_parameters.cpp"),
  [("ellipsoid_clip, box_clip, conic_clip, overlap_clip", HU + "humanoid_parameters.cpp"), ("Footstep::overlap, clipped_opposite_footstep", HU + "footsteps_planner.cpp"), ("plan_impl", HU + "footsteps_planner_naive.cpp")],
  "full enumeration of step requests x parameters x starting poses x targets on the real planners against independent geometry (separating axes, envelopes)", "bounded exhaustive over grids; targets whose plan needs more than the planner's maximum number of steps are outside")

P("P25", "Supports and their polygons describe exactly the feet on the ground",
  "The supports made from footsteps alternate single and double supports as asked, each with the right feet, flags and start time, and truncating them keeps the head and ends on both feet. "
  "A support polygon is at any time the convex hull of the current feet, clockwise, whatever was computed, copied, moved or resized before, and impossible requests are rejected.",
  "inputs histories", "every list of footsteps, flag combination, pose and sequence of moves and reads", "tests do not cover supports",
  f(HU, "footsteps_planner.cpp", "footsteps_planner.h") + " bindings/expose-footsteps.cpp src/placo/tools/utils.cpp",
  [("make_supports", HU + "footsteps_planner.cpp"), ("support_polygon, frame, apply_offset", HU + "footsteps_planner.cpp"), ("truncate_supports", "bindings/expose-footsteps.cpp")],
  "full enumeration of footstep lists x flags x truncations, relative poses, and all sequences of move / read operations on the real objects against independent geometry", "bounded exhaustive")

P("P26", "Swing foot trajectories leave, rise, land and continue as asked",
  "For every start time, duration, height and pair of footholds, a swing trajectory starts at the given position and velocity, reaches the given height at the documented instants, lands on target with zero velocity, and its velocity is the derivative of its position. "
  "Replanning it at any instant continues it without a jump, and replanning towards the same target changes nothing.",
  "inputs histories", "every timing, height, foothold pair and sequence of replans", "tests do not cover swing trajectories",
  f(HU, "swing_foot.cpp", "swing_foot_cubic.cpp", "swing_foot_quintic.cpp") + " src/placo/tools/cubic_spline.cpp",
  [("SwingFoot", HU + "swing_foot.cpp"), ("SwingFootCubic", HU + "swing_foot_cubic.cpp"), ("SwingFootQuintic", HU + "swing_foot_quintic.cpp")],
  "full enumeration of timings x heights x footholds and of sequences of up to two replans on the real trajectories, compared at every sample with independently computed polynomials", "bounded exhaustive over grids")

P("P27", "Planned walks keep the ZMP in the supports and the feet on their footsteps",
  "A planned walk lasts what its supports last, its CoM follows the inverted pendulum without jumps from the given position, keeps the ZMP in the support polygon with its margin at every time step as close as possible to its reference, and stops above the last support. "
  "Feet stand still on their footsteps while supporting and swing from one to the next otherwise, trunk and feet turn along, and transforming or querying the walk changes its answers as a rigid motion or not at all.",
  "inputs histories", "every parameter set, list of supports, initial CoM, transform and sequence of queries", "tests do not cover the walk pattern generator",
  f(HU, "walk_pattern_generator.cpp", "walk_pattern_generator.h", "lipm.cpp", "swing_foot_cubic.cpp", "humanoid_parameters.cpp") + " src/placo/problem/integrator.cpp",
  [("plan, plan_com, constrain_lipm, plan_feet_trajectories", HU + "walk_pattern_generator.cpp"), ("Trajectory queries", HU + "walk_pattern_generator.cpp")],
  "full enumeration of parameters x walks x initial states x transforms and of query sequences on the real generator; each walk checked against an independently assembled model and the KKT conditions of its CoM problem", "bounded exhaustive")

P("P28", "Replanning a walk continues it without a jump; a failed replan changes nothing",
  "Replanning at any instant where it is allowed, any number of times, gives a walk which starts from the current CoM, feet and trunk motion, finishes the current step on time, follows the new footsteps, and has every guarantee of a planned walk. "
  "A replan no CoM motion can satisfy is reported and the walk goes on exactly as it was, and the walk replanned from is never altered.",
  "histories", "every sequence of replans, failed replans and displacements at every instant", "tests do not cover replanning",
  f(HU, "walk_pattern_generator.cpp", "footsteps_planner.cpp", "swing_foot_cubic.cpp"),
  [("replan, replan_supports, can_replan_supports, trim_old_trajectory", HU + "walk_pattern_generator.cpp")],
  "stateless exploration of sequences of replans, impossible replans and displacements at enumerated instants on the real generator, each compared with an independent model, feasibility decided by an independent linear program", "bounded exhaustive over operation sequences and instants")

P("P29", "Step adaptation keeps the next step reachable and follows the pendulum",
  "Adapting a walk to a measured DCM moves only the next footstep and the end of the current step: the footstep stays in its operational space, the duration within its bounds, and both follow from the pendulum as the best compromise between the references, for left and right supports alike. "
  "The best ZMP to steer the DCM is the admissible point of the support polygon closest to the ideal one.",
  "inputs", "every walk, instant, measured DCM, side and pair of polygons", "tests do not cover step adaptation",
  f(HU, "walk_pattern_generator.cpp"), [("update_supports, get_optimal_zmp", HU + "walk_pattern_generator.cpp")],
  "full enumeration of walks x sides x instants x DCM errors x polygons on the real generator against an independently assembled QP and exact projections", "bounded exhaustive over grids; walks without intermediate double support, the case the code addresses")

P("P30", "A humanoid stands on its current support and balances by the book",
  "Whatever supports were switched, joints or base moved and trunk rotations applied before, the robot stands on its current support, flat on the floor where that foot was when it became the support, and trunk rotations turn the robot around it to the orientation asked. "
  "Its CoM velocity, DCM, ZMP and joint torques are the mechanical ones for the given support, trunk rotation and contact forces, for any humanoid, and a target the head is told to look at ends up on the axis of its camera.",
  "inputs histories", "every sequence of support switches and moves, every state, support, trunk rotation and contact force", "one test reads default poses",
  f(HU, "humanoid_robot.cpp", "humanoid_robot.h"), [("update_support_side, ensure_on_floor, ensure_on_floor_oriented, update_from_imu", HU + "humanoid_robot.cpp"), ("get_com_velocity, get_torques, dcm, zmp, camera_look_at", HU + "humanoid_robot.cpp")],
  "exploration of every sequence of support operations on two real humanoids against independent kinematics, and full enumeration of states x supports x rotations x forces against independent mechanics", "bounded exhaustive; reported joint torques need the documented pressure sensor frames")

P("P31", "Walk tasks ask exactly for the given feet, trunk and CoM",
  "Whatever was updated, switched between CoM and trunk control, scaled, offset, read, solved, removed and created again before, the walk tasks make the solver track exactly the last given feet, trunk orientation and CoM (or trunk position), reported errors are those of these targets, and nothing is left in the solver once they are removed. "
  "Reaching an initial pose puts both feet, trunk and CoM where asked.",
  "histories inputs", "every sequence of updates, switches, reads, solves, removals and user tasks, every reachable initial pose", "tests do not cover walk tasks",
  f(HU, "walk_tasks.cpp", "walk_tasks.h") + " bindings/expose-walk-pattern-generator.cpp", [("initialize_tasks, update_tasks, update_com_task, remove_tasks, get_tasks_error, reach_initial_pose", HU + "walk_tasks.cpp")],
  "stateless exploration of operation histories on the real tasks, the solver's step judged after every operation against the independent QP of the expected tasks", "bounded exhaustive over operation sequences")

P("P32", "The step by step walk takes the asked steps and moves the robot along",
  "After any sequence of resets, steps, phases, relocations and parameter changes, the current support stays where it is, the next footstep is the asked step kept in its envelope, feet alternate, and relocating the support moves everything rigidly. "
  "At every phase the robot's feet, lift and trunk are where the step says, and a reset starts again from the initial posture.",
  "histories", "every sequence of resets, steps, phases, relocations, parameter changes and moves of the robot", "tests do not cover it",
  f(HU, "dummy_walk.cpp", "dummy_walk.h") + " " + HU + "footsteps_planner_repetitive.cpp", [("reset, next_step, update, update_T_world_support", HU + "dummy_walk.cpp")],
  "stateless exploration of operation histories on the real walk and robot against an independent model of supports and footsteps", "bounded exhaustive over operation sequences; parameters with reachable postures")

P("P33", "Visual aids show exactly what they were last given",
  "After any sequence of drawing calls, the scene shows, for every name, exactly the last frame, point, point set, path, line, cross, cylinder, arrow, footsteps or robot frame given, where it was given, and nothing left from earlier calls. "
  "Contact forces are drawn as one arrow per active contact, from its centre of pressure along its force expressed in the world, whatever contacts were active, inactive or removed before.",
  "histories inputs", "every sequence of drawing calls, every set, order and activation of contacts", "tests do not cover the visual aids",
  "python/placo_utils/visualization.py", [("drawing functions", "python/placo_utils/visualization.py"), ("contacts_viz", "python/placo_utils/visualization.py")],
  "stateless exploration of drawing histories of the real module on a recorded scene tree, against an independent geometric model of what must be shown", "bounded exhaustive over call sequences; the viewer itself is replaced by a recorder of the scene tree")

P("P34", "A loaded robot is the robot described, whatever its source and options",
  "A robot loaded from a directory, a file or contents, in either format, by an absolute or relative path or from the current directory, and with any options, has exactly the joints, limits, masses, frames, collision and visual geometries (meshes included) and collision pairs described there, and starts in its neutral configuration, a humanoid standing on its left foot. "
  "Robots loaded in one process, in any order, share nothing, and missing or malformed sources are rejected.",
  "configurations inputs histories", "every kind of source, set of options and collision list; every order of loading several robots", "tests load two models from directories, with one set of options",
  f(MD, "robot_wrapper.cpp"), [("RobotWrapper constructor", MD + "robot_wrapper.cpp"), ("HumanoidRobot constructor", HU + "humanoid_robot.cpp")],
  "full enumeration of sources x options x collision lists and of loading orders on the real constructors, in scratch directories, against the model parsed independently from the same description", "bounded exhaustive; the parsers (pinocchio) are trusted")

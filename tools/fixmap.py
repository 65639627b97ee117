MAP = [("vector - expression", "P01"), ("Expression::mean", "P01"), ("expression - scalar", "P01"), ("truncated to single precision", "P01"), ("camera_look_at missed", "P30"), ("slices and mis-sized", "P01"),
       ("constraint sizes", "P02"), ("with use_sparsity", "P03"), ("lacked the slack", "P03"), ("more equalities than variables", "P03"),
       ("Trajectory::duration()", "P04"), ("expr_t and the system", "P04"), ("ignored a t_start", "P04"), ("dzmp had", "P04"),
       ("CubicSpline::duration", "P07"), ("single point spline", "P07"), ("Segment.end", "P08"), ("LIPM.x_var", "P04"),
       ("unknown joint and frame", "P10"), ("joint_jacobian_time_variation", "P11"), ("torques_from_acceleration", "P12"), ("joint_names()", "P10"), ("AxisAlignTask", "P14"), ("YawConstraint", "P17"),
       ("KineticEnergy", "P14"), ("inequalities contradicting", "P15"),
       ("dynamics RelativePositionTask", "P22"), ("TorqueTask stiffness", "P22"), ("dynamics GearTask::set_gear", "P22"), ("DynamicsSolver::remove_task deleted", "P23"),
       ("tangential forces weight", "P21"), ("restore the CRLF", "P07"), ("LineContact mixed", "P21"), ("LineContact.R_world_surface", "P21"), ("dynamics RelativeOrientationTask", "P22"),
       ("Footstep::overlap missed", "P24"), ("FootstepsPlannerNaive stopped", "P24"), ("support polygons were not updated", "P25"), ("make_supports read out", "P25"), ("truncate_supports read", "P25"),
       ("SwingFootQuintic was wrong", "P26"), ("get_prev_support overwrote", "P27"), ("feet velocities raised", "P27"), ("ending in single support", "P27"), ("WPGTrajectory.parts raised", "P27"), ("get_v_world_left was not", "P27"), ("left its target DCM", "P27"),
       ("next double support the start time", "P28"), ("flipped DCM offset", "P29"), ("do not have 20 joints", "P30"), ("uses the support foot it is given", "P30"), ("feet position errors as orientation", "P31"), ("null task when trunk_mode", "P31"), ("WalkTasks.solver copied", "P31"), ("which were not solved yet", "P31"),
       ("without a plateau", "P32"), ("using outdated kinematics", "P32")]
MAP += [("contacts_viz stopped", "P33"), ("contacts_viz drew", "P33"), ("DynamicsSolver.robot was a copy", "P23"), ("DynamicsSolver.get_contact read", "P23")]
MAP += [("DCM feedback started", "P31"), ("Collision.get_contact", "P13"), ("polynoms of high degree", "P05"), ("negative differentiation order", "P05"), ("negative count", "P27"), ("support without footsteps", "P25")]
MAP += [("gear task which is not yet", "P14"), ("regularization task moved", "P14"), ("footstep clipping gives NaN", "P24")]
MAP += [("loaded by its file name alone", "P34")]
OPEN = []

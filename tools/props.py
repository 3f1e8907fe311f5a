"""The property table: source of properties.jsonl and MANIFEST.json (tools/gen.py)"""
PROOF = ("Every obligation is discharged over unbounded real-valued inputs by executing the current source of /repo on symbolic "
         "values along all paths; assumes real arithmetic for floats and the library stand-ins of pyvc/shims.py (DESIGN.md).")
NOT_APPLICABLE = []
PROPS = []


def P(**k):
    PROPS.append(k)


BOUNDED = ("Bounded: exhaustive symbolic execution of the real code for all values of sequences up to the stated length, plus seeded "
           "evaluation of the same contracts on longer inputs; real arithmetic for floats. See DESIGN.md.")
ANYLEN = ("Unbounded: proved for sequences of any length by loop invariants cut into the current source (pyvc/loops.py), plus exhaustive symbolic execution "
          "up to a stated length and seeded evaluation of the same contracts; real arithmetic for floats and Decimals. ")
P(id="P01", title="Sampled sequences are strictly increasing and immutable",
  statement="A DgSampledSequence can only be built from equally many timestamps and values, with real timestamps of one number family that "
            "strictly increase; anything else (repeated, decreasing, NaN, non-numeric, mixed Decimal/float) is rejected. Once built it "
            "holds exactly those samples for ever: neither the containers it was made from nor attribute assignment change it. The builder accepts a "
            "sample only if it is later than its last one and produces exactly the accepted samples.",
  quant="all sequences of timestamps and values, all histories of builder additions",
  why="tests construct a few well-formed sequences; every consumer (interpolation, logs, metrics) relies on the invariant for all of them",
  files=["seq/sequence.py"], mech=[("__post_init__", "seq/sequence.py"), ("DgSampledSequenceBuilder.add", "seq/sequence.py")],
  state=["DgSampledSequence._timestamps", "DgSampledSequence._values"], over=["inputs", "histories"],
  level="proof", note=ANYLEN + "Rejection of malformed (NaN, mixed-type) timestamps is evaluated at run time.")

P(id="P02", title="Lookups in sampled sequences return the right sample",
  statement="at(t) returns the value sampled exactly at t and is undefined elsewhere; at_or_previous(t) returns the value of the latest sample not after "
            "t and is undefined before the start; at_interp(t) is the linear interpolation between the two neighbouring samples and is held constant "
            "beyond the ends, for numbers and for states component by component. All three agree on the samples, for float, int and Decimal timestamps alike, and reading changes nothing.",
  quant="all sequences, all query times (on, between, before and after samples), all state types",
  why="tests query a few points of one sequence; agents and visualisation interpolate at arbitrary times",
  files=["seq/sequence.py"], mech=[("at/at_or_previous/at_interp", "seq/sequence.py")], level="proof", note=ANYLEN + "Interpolation of states is proved for two samples of each state type.")

P(id="P03", title="Transforming a sampled sequence keeps exactly the right samples",
  statement="get_subsequence keeps exactly the samples with from <= t <= to and refuses inverted intervals; shift_timestamps moves every timestamp by dt "
            "and keeps values; transform_values applies the function to every value, dropping only samples for which it returns None; iterate_with_dt yields every pair of "
            "consecutive samples in order with their time difference. The source sequence is never modified.",
  quant="all sequences, intervals, offsets and functions",
  why="tests cover one sequence each; off-by-one at interval ends and falsy values need all cases",
  files=["seq/sequence.py"], mech=[("get_subsequence", "seq/sequence.py"), ("transform_values", "seq/sequence.py"), ("iterate_with_dt", "seq/sequence.py")],
  level="proof", note=ANYLEN)

P(id="P04", title="Integration and differentiation of signals are exact on samples",
  statement="seq_integrate is the trapezoidal integral from the start to every later sample, reported at that sample; seq_differentiate is the slope between "
            "consecutive samples reported at the middle of their interval; seq_accumulate is the running sum at the original timestamps; find_crossings returns, once per change of side, "
            "the time at which the linearly interpolated signal meets the threshold. Empty signals are rejected by integration and differentiation. The signal is left alone.",
  quant="all sequences of samples, all thresholds",
  why="tests check one increasing signal; metrics (comfort, efficiency, safety) are built on these operators",
  files=["seq/seq_op.py"], mech=[("seq_integrate", "seq/seq_op.py"), ("seq_differentiate", "seq/seq_op.py")], level="proof", note=ANYLEN)

P(id="P05", title="PID controllers are bounded, anti-windup PID laws",
  statement="Every control value equals kP*error + integral + kD*error rate clipped to the output bounds, where the reference is clipped to the setpoint bounds, the "
            "integral accumulates kI*error*dt and is clipped to the anti-windup bounds, and the first request (or a repeated time) contributes neither integral "
            "nor derivative. Speed and steering controllers built from vehicle parameters inherit exactly the vehicle's limits. Inverted bounds are rejected.",
  quant="all gains, bounds, controller states, references, measurements and request times; histories by induction",
  why="tests only build default controllers inside one simulation",
  files=["controllers/pid.py", "controllers/speed.py", "controllers/steer.py"],
  mech=[("PID.get_control", "controllers/pid.py"), ("from_vehicle_params", "controllers/steer.py")], over=["inputs", "histories"],
  state=["PID.last_integral_error", "PID.last_proportional_error", "PID.last_request_at"], note=PROOF)
P(id="P06", title="Pure pursuit steers along the circle through its goal point",
  statement="The desired steering is atan(length * 2 sin(alpha) / lookahead) with alpha the bearing of the goal point from the rear axle relative to the heading: a "
            "goal to the left steers left, ahead steers straight. The look-ahead is k*speed clipped to its bounds. The goal point "
            "lies on the reference path, at least min_distance and at most min_distance + lookahead further along it. Missing pose or path is an error. Parameters derive from the vehicle's wheelbase and rear length.",
  quant="all poses, goal points, speeds and parameters away from the singular bearing where the code's regulariser cancels",
  why="tests run one lane-following simulation and look at plots",
  files=["controllers/pure_pursuit.py"], mech=[("get_desired_steering", "controllers/pure_pursuit.py"), ("find_goal_point", "controllers/pure_pursuit.py")],
  note=PROOF + " scipy's bounded minimiser is assumed to return a point within its bounds.")
P(id="P07", title="Speed behaviour yields, brakes and follows safely",
  statement="SpeedBehavior asks for zero speed exactly when another agent within the yield distance comes from the right faster than the minimum yield speed, or an emergency holds; the emergency flag is "
            "raised exactly for a close fast agent from the left or a head-on agent inside the braking distance within the lane. Otherwise the reference is the nominal speed, reduced to the safe speed of every leader in the lane "
            "that is closer than the safety gap; it is never above nominal nor negative. The agent itself never counts as another agent.",
  quant="all relative poses, speeds and parameters; any number of other agents",
  why="tests run one intersection scenario; decision thresholds combine several conditions that samples miss",
  files=["controllers/speed.py"], mech=[("get_speed_ref", "controllers/speed.py"), ("cruise_control", "controllers/speed.py")],
  note=PROOF + " Proved for any number of other agents (loop contracts over the mapping of observations); agents in global poses also by seeded evaluation.")
P(id="P08", title="Actuation limits are enforced by every dynamic model",
  statement="Whatever commands an agent issues, the actuation a model applies is the command clipped to the model's limits: "
            "accelerations, thrusts, wheel rates, steering/nozzle/turning rates never exceed their declared bounds, a saturated "
            "speed, rotation or angle is never pushed further past its bound, and in-limit commands act unchanged. "
            "Model parameters with inverted or empty limits are rejected.",
  quant="all states (inside or outside the limits), all commands, all admissible parameters of all models that declare limits",
  why="tests drive a few agents with in-limit commands and look at final states; they never quantify over commands or parameters",
  files=["sim/models/model_utils.py", "sim/models/vehicle_utils.py", "sim/models/pedestrian_utils.py", "sim/models/vehicle.py",
         "sim/models/spacecraft.py", "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/diff_drive.py",
         "sim/models/obstacles_dyn.py", "sim/models/pedestrian.py", "sim/models/model_structures.py"],
  mech=[("clipping and saturation", "sim/models/model_utils.py"), ("steering_constraint", "sim/models/vehicle_utils.py"),
        ("parameter validation", "sim/models/model_structures.py")],
  note=PROOF)
P(id="P09", title="Wheeled models follow their documented equations of motion",
  statement="The state derivative of the kinematic bicycle, of the single-track dynamic model (front/rear slip, load transfer, "
            "tyre friction circle, drag, kinematic fallback at low speed, friction after a collision) and of the differential drive "
            "equals the documented equations for every state and command. Tyre friction never exceeds its peak; longitudinal forces "
            "are split between the axles without loss. The kinematic models never slip sideways at the rear axle.",
  quant="all states, commands, geometries and limits; for the single-track model all states with loaded axles and a forward moving front tyre",
  why="tests only integrate a handful of manoeuvres and assert that nothing raises or loose end positions",
  files=["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/diff_drive.py", "sim/models/tires.py"],
  mech=[("VehicleModel.dynamics", "sim/models/vehicle.py"), ("VehicleModelDyn.dynamics", "sim/models/vehicle_dynamic.py"),
        ("Pacejka", "sim/models/tires.py"), ("DiffDriveModel.dynamics", "sim/models/diff_drive.py")],
  note=PROOF + " The single-track target uses the contracts of the limit functions and of the tyre curves (proved separately).")
P(id="P10", title="Pedestrian, space and obstacle models follow their equations of motion",
  statement="The state derivatives of pedestrians, spacecraft, rockets, spaceships and dynamic obstacles equal their documented "
            "equations (frames, inertial terms, lever arms, friction after a collision). A rocket or spaceship without fuel produces no "
            "thrust and burns nothing, and fuel never grows for non-negative thrust limits. Evaluating the dynamics changes neither state nor commands.",
  quant="all states, commands, geometries and limits",
  why="tests integrate single manoeuvres of rocket and spaceship and plot; no assertion on the equations",
  files=["sim/models/pedestrian.py", "sim/models/spacecraft.py", "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/obstacles_dyn.py"],
  mech=[("dynamics", "sim/models/rocket.py"), ("dynamics", "sim/models/spaceship.py"), ("dynamics", "sim/models/spacecraft.py"),
        ("dynamics", "sim/models/pedestrian.py"), ("dynamics", "sim/models/obstacles_dyn.py")],
  note=PROOF + " The limit functions enter through their contracts, proved in P08.")
P(id="P12", title="States and commands form a vector space consistent with their arrays",
  statement="For every state and command type, sum, difference, scaling (from either side) and quotient act on each component and return the same type "
            "without touching the operands; different types never mix silently. Conversion to an array and back is the identity in both "
            "directions with the declared index as layout, and arrays of another size are rejected.",
  quant="all values of all components, all scalars, all 15 state/command types",
  why="tests use single values of a couple of types; the integrator and the interpolation rely on the algebra for all values",
  files=["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/diff_drive.py", "sim/models/spacecraft.py",
         "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/obstacles_dyn.py"],
  mech=[("operators, as_ndarray/from_array, idx", "sim/models/vehicle.py"), ("idx", "sim/models/rocket.py")],
  note=PROOF)
P(id="P13", title="Velocities and poses read from a model are those of its motion",
  statement="Setting a model's velocity in the body or the global frame and reading it in either frame agrees up to the rotation by the "
            "heading, touches only the velocity components, and leaves the argument alone. The global velocity and rotation read from a model "
            "are the time derivative of its pose, and the pose matrix is that of its position and heading.",
  quant="all states, velocities, headings and both frames for all models with a full velocity state",
  why="tests never call the velocity accessors with a non-zero heading in both frames; collisions rely on them for every pose",
  files=["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/spacecraft.py", "sim/models/rocket.py",
         "sim/models/spaceship.py", "sim/models/obstacles_dyn.py"],
  mech=[("get_velocity/set_velocity", "sim/models/rocket.py"), ("get_velocity/set_velocity", "sim/models/vehicle_dynamic.py")],
  note=PROOF)
MIXED = ("Loop-free code: every obligation discharged over unbounded reals on all paths of the real code. Geometry computed by shapely and numerical "
         "integration by scipy are checked by seeded evaluation of the same contracts, labelled runtime/bounded. ")
P(id="P11", title="A model update integrates its motion over exactly one step",
  statement="update(commands, dt) moves a model from its current state along its equations of motion for exactly dt with the commands held "
            "constant; collided models other than cars and dynamic obstacles coast with zero commands. If integration fails this is reported and the state is kept. "
            "Commands and previously handed out states are never written, the collision flag is kept; states handed out are copies and a state that was set is the state.",
  quant="all states, commands and time steps of all models, with the integrator behind its contract; the real integrator by seeded evaluation",
  why="tests integrate fixed manoeuvres; that dt, initial state and held commands are passed through exactly needs all values",
  files=["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/diff_drive.py", "sim/models/spacecraft.py",
         "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/obstacles_dyn.py", "sim/simulator_structures.py"],
  mech=[("update", "sim/models/vehicle.py"), ("get_state", "sim/simulator_structures.py")], state=["SimModel._state"],
  note=PROOF + " scipy.solve_ivp is assumed to solve the initial value problem it is given (spot checked against a tight tolerance).")
P(id="P14", title="Collisions between players conserve momentum and never add energy",
  statement="Resolving a collision between two approaching bodies changes their velocities by equal and opposite impulses along the impact normal at the impact point: linear momentum "
            "and angular momentum about the impact point are conserved, the points of contact separate with the restitution of the less bouncy body, and kinetic "
            "energy never grows. Both have then collided and the report carries the velocities before and after, energies, impact, time, footprints, touched parts and fault: on a map, a player is at fault exactly if none of the lanes at the impact point "
            "contains it in driving direction. Separating bodies are left untouched and unreported.",
  quant="all masses, inertias, restitutions, velocities, poses and impact geometries",
  why="tests crash a few pairs of cars at chosen speeds and look at plots",
  files=["sim/collision.py", "sim/collision_utils.py"],
  mech=[("resolve_collision", "sim/collision.py"), ("compute_impulse_response", "sim/collision_utils.py"), ("velocity_after_collision", "sim/collision_utils.py")],
  note=MIXED + "Impact geometry and footprints enter through their contracts (P16, P27).")
P(id="P15", title="Collisions with the environment bounce the player and keep its energy",
  statement="Resolving a collision of a player with a static obstacle is the collision with an immovable body: the impulse acts along the impact normal at the impact "
            "point, the contact point bounces back with the smaller restitution, the player's kinetic energy never grows and its pose is kept. The player has collided and is at fault, "
            "the report shows an unmoved environment. Separating players are left untouched and unreported.",
  quant="all masses, inertias, restitutions, velocities, poses and obstacles",
  why="tests run a car into one wall",
  files=["sim/collision.py", "sim/collision_utils.py"], mech=[("resolve_collision_with_environment", "sim/collision.py")],
  note=MIXED + "Impact geometry enters through its contract (P16).")
P(id="P16", title="Impact geometry points from one body to the other",
  statement="For two overlapping bodies the impact normal is a unit vector, perpendicular to the line between the two points where their outlines cross and pointing out of the first body; the "
            "impact point is midway between the crossings, whichever body is asked; an obstacle contained in the body is hit at its centroid. Velocities of body points are v + w x r, impact directions are "
            "relative to the heading. Combined reports of one accident keep the earlier impact and fault, the velocities before the first and after the last, add energies and locations, in whatever order they are grouped.",
  quant="all pairs of overlapping footprints crossing in two points; all rigid body velocities; all reports",
  why="tests check single boxes; the orientation of the normal depends on the configuration of both bodies",
  files=["sim/collision_utils.py", "sim/collision_structures.py"],
  mech=[("compute_impact_geometry", "sim/collision_utils.py"), ("velocity_of_P_given_A", "sim/collision_utils.py"), ("combine_collision_reports", "sim/collision_structures.py")],
  note=MIXED)
P(id="P17", title="A simulation step advances every player once, from one snapshot",
  statement="Agents are initialised once before the first step. At every step all active agents are asked for commands exactly when the command period has elapsed, each on its own sensor's reading of the states of all active "
            "players at that time; then every model is advanced once by dt with its agent's latest commands and the clock by dt. The logs hold every state at its time and every "
            "command, extra and timing at the time of the request. Nobody else's state or commands leak, and a later episode does not depend on an earlier one.",
  quant="any number of players, any clock, command period, commands and states; a step from any reachable state, and whole episodes",
  why="tests run a handful of scenarios and assert that they end; ordering and timing errors do not show up there",
  files=["sim/simulator.py", "sim/log_visualisation.py", "sim/simulator_structures.py"],
  mech=[("Simulator.run/pre_update/update/post_update", "sim/simulator.py")], over=["inputs", "histories"],
  state=["Simulator.last_get_commands_ts", "Simulator.last_observations", "SimContext.time", "SimContext.log"], level="other",
  note="Induction over steps: one step from an arbitrary symbolic clock and state, proved for any number of players; whole episodes symbolic up to a stated number of steps, longer ones by seeded evaluation.")
P(id="P18", title="Simulations end when, and only when, they should",
  statement="A simulation terminates exactly when its maximal time is exceeded, the allowed time after the first collision is exceeded, no player is left, or all missions of a mission scenario are done. "
            "Every active mission is judged once per step on the new state at the new time; exactly the players that fulfilled theirs leave, their models stay and "
            "their final state is logged. An episode never outlasts its limits by more than a step and the time of the first collision is never moved.",
  quant="any number of players and missions, all times, limits and goal outcomes",
  why="tests run episodes to a fixed end; each termination branch interacts with the others",
  files=["sim/simulator.py"], mech=[("_maybe_terminate_simulation", "sim/simulator.py"), ("_remove_finished_players", "sim/simulator.py")],
  over=["inputs", "histories"], state=["SimContext.sim_terminated", "SimContext.first_collision_ts"], level="other",
  note="Every clock, limit and goal outcome, proved for any number of players and missions; whole episodes by seeded evaluation.")
P(id="P19", title="Every collision is detected and resolved exactly once",
  statement="After every step each pair of active players whose footprints overlap, and each active player touching an obstacle, is resolved exactly once, and no other; resolved collisions are each reported once, unsupported ones "
            "with an empty report. Moving obstacles do not report contacts with the environment. The time of the first reported collision is recorded and kept. Finished players no longer collide.",
  quant="any number of players and obstacles, all overlap patterns",
  why="tests have two players or one obstacle; double resolution and missed pairs need combinations",
  files=["sim/simulator.py"], mech=[("_check_collisions_among_players", "sim/simulator.py"), ("_check_collisions_with_environment", "sim/simulator.py")],
  over=["inputs", "histories"], state=["SimContext.collision_reports", "SimContext.first_collision_ts"], level="other",
  note="Every overlap pattern proved for any number of players and obstacles, behind the contracts of shapely's index and predicates and of the resolution functions (P14-P16); scenes with real footprints by seeded evaluation.")
P(id="P21", title="Lanes map positions, progress and poses consistently",
  statement="Along a lane, progress (in control points) and distance are in one-to-one correspondence: along_lane_from_beta and beta_from_along_lane are inverse, start at 0, end at the lane's length, which "
            "is the arc length of its centre line, and meet every control point. Centre line and half width interpolate between control points and hold their heading and width beyond the ends. A pose placed at "
            "some distance, lateral offset (left positive) and heading is found there, with the inside, left/right, before/after and direction flags and the distances to centre and boundaries that follow. "
            "Lanes built from boundary vertices run between them, and the outline is right boundary forth, left back.",
  quant="all lanes (lengths, widths), all positions along and across, all headings; searches for the closest point on gently curved lanes",
  why="tests use a few lanes and plots; sign and interval conventions hold at all positions or break consumers",
  files=["maps/lanes.py"], mech=[("along_lane_from_beta/beta_from_along_lane", "maps/lanes.py"), ("lane_pose", "maps/lanes.py"), ("center_point", "maps/lanes.py")],
  level="other", note="Proved for lanes with any number of control points, behind the contracts of SE(2) interpolation and of scipy's bounded minimiser; curved lanes also by seeded evaluation.")

P(id="P20", title="Agents perceive exactly what their sensors can show them",
  statement="The identity filter passes every observation unchanged. The ghost filter hides its ghost, and nobody else, exactly as long as it is further from the observer than the threshold. The delay filter shows the whole of the oldest reading of the episode that is at most the latency old "
            "(the present one included), labelled with that reading's time plus the latency, each episode afresh. The field-of-view filter keeps the observer and "
            "exactly those players whose body is in the line of sight of its sensor, which is placed at the observer's current pose, within range, and blocked by the obstacles and by the other players. Filters never alter the observations they were given.",
  quant="all scenes, ghost distances, latencies and reading times, sensor ranges and fields of view, histories of readings over episodes",
  why="tests look at one scene and one sensor; leaking a hidden player or a future state silently invalidates experiments",
  files=["sim/sim_perception.py", "perception/sensor.py"],
  mech=[("IdObsFilter/GhostObsFilter/DelayedObsFilter/FovObsFilter.sense", "sim/sim_perception.py"), ("fov_as_polygon", "perception/sensor.py")],
  over=["inputs", "histories"], state=["DelayedObsFilter.obs_history", "FovObsFilter._static_obstacles"], level="other",
  note="Unbounded: the ghost filter for any number of players, the delay filter for any history of readings, the field-of-view filter for any number of players and obstacles, and the view of the ranged sensor for any number of rays, obstacles and hits are proved by loop invariants over the current source, behind the contracts of the ray tracer (raytrace) and of shapely's intersects; whole scenes are also evaluated against an independent ray caster.")
P(id="P22", title="Poses, frames and shapes transform rigidly",
  statement="SE2_apply_T2 and transform_xy map points by rotation then translation; relative_pose(a, b) is the pose that, seen from a, is b; norm_between_SE2value is the Euclidean distance and does not depend on headings, get_distance_SE2 the length of the arc along which poses are interpolated. SE2Transform, pose matrices and poses of states convert into each "
            "other without loss. Shapes are moved rigidly: same size, every point where the pose puts it. Interpolation between two poses starts at one, ends at the other and moves along an arc at constant rate. Conversions for the ray tracer keep "
            "outlines. The pose, velocity and speed extracted from a state are that state's own; speed units convert exactly back and forth.",
  quant="all poses, points, shapes, states and units",
  why="tests cover a few round trips; every module composes these maps",
  files=["geo.py", "sim/models/utils.py"],
  mech=[("SE2_apply_T2", "geo.py"), ("relative_pose", "geo.py"), ("SE2Transform", "geo.py"), ("apply_SE2_to_shapely_geo", "geo.py"), ("transform_xy", "geo.py")],
  level="other", note=MIXED + "Any number of points, relative poses, distances, conversions, shapes and ray-tracer polygons of any number of corners are proved for all values; SE(2) interpolation and distance behind the contract of the group library (log and exp inverse to one another).")
P(id="P23", title="Trajectories compose, transform and connect as stated",
  statement="The path of a trajectory is the sequence of its states' positions and headings. A rigid motion moves every state's pose and nothing else. Two trajectories connect if speed and steering agree at the seam within the tolerance; merging appends the second without its first state and refuses seams that do not connect or times out of order, the unchecked merge refuses only gaps in time. Upsampling keeps every sample and inserts evenly spaced linear interpolations. A command plan holds one command per interval, at its start, that leads to the next speed and steering. Graphs of trajectories return the states, transitions and commands along the path between two nodes, for every leaf when asked for all, and refuse unknown nodes. Operands are never altered.",
  quant="all trajectories, states, transforms; all paths in graphs of trajectories",
  why="tests build one trajectory and one graph; planners rely on exact joins",
  files=["planning/trajectory.py"],
  mech=[("Trajectory.merge", "planning/trajectory.py"), ("Trajectory.upsample", "planning/trajectory.py"), ("Trajectory.apply_SE2transform", "planning/trajectory.py")],
  level="other", note=ANYLEN + "Upsampling proved for any length and any number of insertions; paths in trajectory graphs of any length behind the contract of networkx' shortest path; whole graphs on seeded trees.")

P(id="P24", title="Motion primitives and sampled commands are feasible and exact",
  statement="Inputs are accepted exactly if acceleration and steering rate stay within the vehicle's limits. Motion primitives are generated for exactly the feasible pairs of sampled start (or the given state) and end speeds and steering angles; each starts there and follows the dynamics under one constant input that leads to the end over the horizon. Grids hold n equally spaced values including both limits. Command samplers refuse ranges beyond the vehicle's limits and return one step of the dynamics per sampled command. The bicycle's rates are the kinematic ones about the centre of gravity; Euler steps are state + dt * rate of the clipped command, with speed and steering clipped; integrated steps solve the same equations. Given states are never altered.",
  quant="all states, inputs, vehicle parameters and steps; grids of any size",
  why="tests generate primitives for one vehicle and plot them",
  files=["planning/motion_primitives.py", "planning/commands_sampler.py", "dynamics/bicycle_dynamic.py"],
  mech=[("MotionPrimitivesGenerator.generate", "planning/motion_primitives.py"), ("BicycleDynamics.dynamics", "dynamics/bicycle_dynamic.py")],
  level="other", note="Proved for any number of samples and steps; the ODE solver (scipy) by seeded evaluation.")
P(id="P25", title="Metrics measure what they are named after",
  statement="Maximal jerk is the largest change of acceleration per time, in magnitude, between consecutive commands in the interval. Distance travelled is the sum of the steps between logged positions. The frequency weight is the ISO 2631-1 approximation, and the weighted RMS the root mean square of the whole signal filtered by it. The goal lane counts as reached at its goal or when centred and aligned in it or in a lane it continues, first at the earliest such state. Closest distances and times to collision are between the footprints of active players, over all of ego's times in the interval: TTC is the first contact at constant velocity in steps of 0.1 s up to 3 s, DRAC the deceleration with which a forward moving ego stops before it. Ego has collided exactly if one of the reports involves it.",
  quant="all logs and intervals; geometry on seeded logs",
  why="tests evaluate metrics on one log and do not look at the values",
  files=["eval/comfort.py", "eval/efficiency.py", "eval/safety.py"],
  mech=[("get_max_jerk", "eval/comfort.py"), ("distance_traveled", "eval/efficiency.py"), ("get_ttc_drac_at_t", "eval/safety.py")],
  level="other", note=ANYLEN + "Metrics between players, the first contact at constant velocity, the search for the lane reached and the weighted RMS (behind the contract of the FFT) proved for any number of players, lanes and samples behind the contracts of shapely; footprints and maps of real players on seeded logs.")

P(id="P26", title="Goals are fulfilled exactly in their region",
  statement='A pose goal is fulfilled exactly if position and heading (modulo full turns) agree with it within the tolerance; an area goal exactly if the position is inside its polygon; a reference-lane goal exactly if the position is within a metre past the line across the lane at the goal progress; the goal at the end of a lane exactly near that end over the width of the lane. Other components of the state and the time play no role; the geometry given for plotting is an arrow at the pose, the polygon, or the surroundings of that line.',
  quant="all states, times, poses, tolerances, areas and lanes",
  why="tests check a few points; missions end by this decision (P18)",
  files=["sim/goals.py"], mech=[("PoseGoal/PolygonGoal/RefLaneGoal.is_fulfilled", "sim/goals.py")], level="other",
  note="Proved for all states, poses, tolerances, areas and lanes, behind the contracts of shapely (containment depends on the point alone; a buffered line is all points closer than the radius) and of the lane (P21); real shapes and lanes by seeded evaluation.")
P(id="P27", title="Every model occupies its body at its pose",
  statement="The footprint of a model is its geometry's outline placed rigidly at its current pose, whatever the state. The mesh used for impacts covers the footprint with its parts on the sides their names say. Vehicle bodies span exactly length and width with axles and "
            "wheels where the geometry puts them; steered wheels turn by the steering angle in place. Differential-drive wheels, rocket and spaceship nozzles sit where thrust acts and flames point opposite to it, growing with the command. Lights are those of the commanded phase at that time.",
  quant="all states of all models, all geometries",
  why="tests plot one vehicle; collisions (P14-P16) and sensing (P20) act on these shapes",
  files=["sim/models/vehicle.py", "sim/models/vehicle_structures.py", "sim/models/diff_drive_structures.py", "sim/models/rocket_structures.py", "sim/models/spaceship_structures.py", "sim/models/vehicle_ligths.py", "sim/models/pedestrian.py", "sim/models/obstacles_dyn.py"],
  mech=[("get_footprint/get_mesh", "sim/models/vehicle.py"), ("get_rotated_wheels_outlines", "sim/models/vehicle_structures.py"), ("get_phased_lights", "sim/models/vehicle_ligths.py")],
  level="other", note="Footprints, bodies and wheels are proved for all states and geometries (shapely stands in by affine maps of symbolic corner points); so are nozzles, flames and their opposition to the push, and lights at any time; so are meshes and the parts outlines are put together from (unions, buffers and scaling behind the contracts of shapely); real shapes by seeded evaluation.")
P(id="P28", title="Agents act on what they were given, and only on that",
  statement="A non-playing agent issues the latest planned command not later than now. A policy agent applies its policy to its own current state. The lane follower drives each step with the speed reference of its behaviour on all it observes, its speed and steering controllers on its own state and pure pursuit from its own pose and progress on its own lane at that speed, within the vehicle's limits; after an emergency its wanted speed is zero for the rest of the episode. Every episode starts afresh: no command depends on an earlier one. On a straight lane it converges to the centre line.",
  quant="all observations, states, plans and times; histories over episodes; convergence on seeded starts",
  why="tests run agents in one scenario each and never compare commands",
  files=["sim/agents/agent.py", "sim/agents/lane_follower.py"], mech=[("NPAgent.get_commands", "sim/agents/agent.py"), ("LFAgent.get_commands", "sim/agents/lane_follower.py")],
  over=["inputs", "histories"], state=["LFAgent._emergency", "PID.last_integral_error"], level="other",
  note="One step of the policy agent and of the lane follower for all observations, behind the contracts of the controllers (P05-P07); plans of any length; episodes and convergence by seeded evaluation.")
P(id="P29", title="Logs replay exactly what was recorded",
  statement="A player's log at any time holds the state interpolated between the neighbouring logged ones, and the commands, extra and info last issued at or before that time; a simulation log gives this for every player it holds. Its initial and last time are those of the earliest and latest state of its players. Loggers return exactly what was logged per player, at its time, in order. Players reported as having collided are exactly those occurring in reports. Only player logs can be stored.",
  quant="all times, states and commands; logs of any length and number of players",
  why="visualisation and metrics read logs at arbitrary times; tests only render them",
  files=["sim/simulator_structures.py", "sim/log_visualisation.py", "sim/utils.py"], mech=[("PlayerLog.at_interp", "sim/simulator_structures.py"), ("SimLog.at_interp", "sim/simulator_structures.py"), ("who_collided", "sim/utils.py")],
  level="other", note=ANYLEN + "Loggers and the players of collision reports for any number of samples, reports and players.")
P(id="P30", title="CommonRoad scenarios are imported faithfully",
  statement='A dynamic obstacle counts as at rest exactly if it ends where it began. Moving ones get a model of their type, no larger than they are, at their pose and speed, steering towards their next state however angles are written, and follow a lane from their start to their end if the map has one that fits their heading, else their own trajectory. A replica has a player for each of them and a static obstacle, in its place, for every other obstacle. Scenarios list the given obstacles first, and boundaries on request; these close the sides of the road just outside of it and leave the road, its entries and exits free. The lane at a position runs from there to an end of the road.',
  quant="all scenarios: maps with forks, crossings, circuits, separate roads; obstacles of every type and motion",
  why="tests load a few public scenarios and never compare them with the source",
  files=["sim/scenarios/factory.py", "sim/scenarios/model_from_dyn_obstacle.py", "sim/scenarios/utils_dyn_obstacle.py", "sim/scenarios/structures.py", "maps/road_bounds.py"],
  mech=[("infer_lane_from_dyn_obs", "sim/scenarios/utils_dyn_obstacle.py"), ("infer_model_from_cr_dyn_obstacle", "sim/scenarios/model_from_dyn_obstacle.py"), ("build_road_boundary_obstacle", "maps/road_bounds.py")],
  level="other", note="proved for all obstacles, trajectories of any length and networks of any number of lanelets known by their queries: which obstacles rest, their models, the lane chosen for them or along their trajectory, the lane at a position, the obstacles of a scenario and their index, replicas of any number of obstacles and the boundaries of any road (as sets of points, behind the contracts of shapely's unions and differences). CommonRoad's reader and network are opaque: real scenarios are evaluated on seeded ones.")
P(id="P32", title="What is drawn is what was simulated",
  statement='Each player is drawn with its footprint and all its parts at its current pose, wheels, nozzles and flames as commanded, named at its position, with the lights of the commanded phase at their places; brake lights brighten exactly while it brakes, its own only. Drawn trajectories run through their states, the view contains all players or the followed ones, all obstacles and goals are drawn in place, shapes keep their holes and parts, log plots show the logged values over time of the chosen players.',
  quant="all states of all models, commands, trajectories, scenes and logs",
  why="tests produce pictures nobody compares",
  files=["sim/simulator_visualisation.py", "sim/simulator_animation.py", "maps/shapely_viz.py", "sim/log_visualisation.py"],
  mech=[("plot_player", "sim/simulator_visualisation.py"), ("lights_colors_from_lights_cmd", "sim/simulator_animation.py"), ("add_shape", "maps/shapely_viz.py")],
  level="other", note="Matplotlib's axes and artists stand in as recorders: bodies, parts, lights and labels are proved for all states, geometries and commands, the view, trajectories, arena and log plots for any number of players, samples and obstacles; shapes for up to two parts and holes of any number of corners (bounded). What matplotlib makes of it is evaluated on seeded inputs.")

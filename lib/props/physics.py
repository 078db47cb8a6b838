"""Properties of physics."""
ZFP = 'The zfp library, an external dependency that is not in this sandbox, is ' \
      'replaced by a stand-in with the largest error that zfp allows.'

S('C40', 'Discrete trajectories keep their points and segments',
  '''Whatever the sequence of operations (appending points, creating, detaching,
  attaching, deleting and merging segments, forgetting points before or after a
  time, clearing, moving, serializing), a trajectory without downsampling has
  exactly the segments and points that the operations left, with consecutive
  segments sharing their junction point, which iteration and size count once.
  Iteration in both directions, find, lower_bound, upper_bound, t_min, t_max
  and the segments all agree; evaluation returns the points themselves at their
  times, and between them the cubic that interpolates them and their
  velocities.''',
  '''All the sequences of up to 4 (thorough: 5) of 11 operations, with all their
  meaningful operands (each segment, each time at, between, before and after the
  points), from 4 initial trajectories of up to 4 segments.''',
  '''The map of the segments by time has to be maintained by each operation for
  empty segments, 1-point segments, and several segments at the same time; the
  tests try each operation on one trajectory.''',
  ['physics/discrete_trajectory_body.hpp',
   'physics/discrete_trajectory_segment_body.hpp',
   'physics/discrete_trajectory_iterator_body.hpp',
   'physics/discrete_trajectory_segment_iterator_body.hpp'],
  [('map of the segments', 'physics/discrete_trajectory_body.hpp: '
    'segment_by_left_endpoint_, FindSegment, AdjustAfterSplicing'),
   ('shared points', 'physics/discrete_trajectory_iterator_body.hpp')],
  dict(harness=['C40_discrete_trajectory.cc'], protos=['physics'], math=True,
       opt='-O2', repo=['base/zfp_compressor.cpp'],
       rule='A case is a sequence of operations; a state is the structure of '
            'the resulting trajectory.', assumptions=[ZFP]),
  'Attaching a trajectory that starts with an empty segment is not supported '
  'by the code and not explored.')

S('C41', 'Downsampling and saving trajectories stay within their tolerance',
  '''At all times, evaluating a downsampled trajectory at the time of any point
  appended to it gives a position within the tolerance of that point, and the
  first and last points are exact.  Saving and restoring a trajectory, or saving
  it as two ranges and merging them, does not change how it continues.  The
  positions saved are within the tolerance, and the times, the extremities of
  the segments, and the points requested as exact are restored exactly.''',
  '''4 motions, 3 tolerances, 14 points (thorough: 18), any 2 of 5 operations
  (saving, splitting and merging, new segment, forgetting before and after) at
  all pairs of times, with all the points as operands.  All the trajectories of
  up to 7 points, all the subsets of exact points, all junctions, for the
  compression.''',
  '''The error accumulates over the points that were dropped, so a state which
  isn't carried over by some operation only shows later.''',
  ['physics/discrete_trajectory_segment_body.hpp', 'base/zfp_compressor.cpp',
   'numerics/hermite3_body.hpp'],
  [('error bound', 'physics/discrete_trajectory_segment_body.hpp: Append, '
    'ForgetAfter, Merge, ReadFromMessage'),
   ('norm of the error', 'numerics/hermite3_body.hpp: LInfinityL₂Norm')],
  dict(harness=['C41_downsampling.cc'], protos=['physics'], math=True,
       opt='-O2', repo=['base/zfp_compressor.cpp'],
       rule='A case is a trajectory and the operations applied to it; a state '
            'is the set of points retained and the errors.',
       assumptions=[ZFP]))

S('C42', 'Motions of frames act on positions and velocities consistently',
  '''A rigid motion between two frames, however it was specified (by the motion
  of either frame as seen from the other), and a similar motion (which also
  dilates) map positions and velocities as the corresponding time-dependent
  affine map and its derivative do.  This also holds for inverses, products,
  identities, nonrotating motions, motions which change the handedness, and
  after serialization; the angular velocity and the velocity of the origin of
  either frame, as seen from the other one, are those of that map.''',
  '''All the motions made from 5 rotations, 3 origins in each frame, 3 angular
  velocities, 2 velocities, both specifications; all the pairs from a smaller
  set, for 3 combinations of handedness; similar motions with 3 scales and 3
  rates, dilating before or after the motion.''',
  '''Composing motions involves cross terms (Coriolis, dilatation of a drift)
  which vanish in simple cases, and signs that depend on the handedness.''',
  ['physics/rigid_motion_body.hpp', 'physics/similar_motion_body.hpp',
   'geometry/affine_map_body.hpp'],
  [('rigid motions', 'physics/rigid_motion_body.hpp: operator(), Inverse, '
    'operator*'),
   ('similar motions', 'physics/similar_motion_body.hpp: operator(), Inverse, '
    'operator*')],
  dict(harness=['C42_motions.cc'], protos=['physics', 'geometry'], math=True,
       opt='-O1',
       rule='A case is a motion, or a pair of motions.'),
  technique=ENUM_TECH)

S('C43', 'Continuous trajectories fit their points and restart identically',
  '''A continuous trajectory is available from its first point to the last point
  at a multiple of 8 steps, and there, for a smooth motion, it is within twice
  its tolerance of the motion, exact at every 8 steps.  What it evaluates to
  doesn't depend on what was evaluated before, or on when.  When it is saved,
  restored at any of its checkpoints, continued, and completed by prepending the
  trajectories reconstructed from the preceding checkpoints, in whatever order,
  it is identical to the trajectory that was never saved: same bounds, same
  values to the last bit, same message.  Appending points that are not equally
  spaced, or evaluating out of the bounds, is caught.''',
  '''9 motions (7 smooth), 5 combinations of tolerance, step, and origin of time.
  850 points (thorough: 1700), so that the degree is old enough to be lowered;
  all the pairs of evaluations, at half steps, over 5 polynomials (thorough: 8);
  6 sets of checkpoints, 5 times of saving, each checkpoint restored, 5 times of
  reconstruction of the past.''',
  '''The state that a restart has to restore (degree, its age, the adjusted
  tolerance, the points not in a polynomial yet) only shows many points later,
  and depends on where the checkpoint falls.''',
  ['physics/continuous_trajectory_body.hpp', 'physics/checkpointer_body.hpp'],
  [('choice of the polynomial', 'physics/continuous_trajectory_body.hpp: '
    'ComputeBestNewhallApproximation'),
   ('restarts', 'physics/continuous_trajectory_body.hpp: ReadFromMessage, '
    'MakeCheckpointerReader, Prepend')],
  dict(harness=['C43_continuous_trajectory.cc'], protos=['physics'], math=True,
       opt='-O0', fma=True, repo=['base/flags.cpp'],
       rule='A case is a trajectory and its history; a state is the final '
            'message.'),
  'Save formats older than the current one are not explored.')

S('C46', 'The geopotential is the sum of its damped spherical harmonics',
  '''The potential and acceleration due to the oblateness of a body are the ones
  of its normalized spherical harmonics (except for the degree 2, order 1 ones,
  which are ignored), rotated according to the pole and the prime meridian, at
  all points, including on the axis.  The acceleration is the opposite of the
  gradient of the potential.  With a nonzero tolerance each harmonic is left
  alone at least as far as it is significant and decreases smoothly to 0
  at three times that distance.  Serialization preserves the body.''',
  '''Each harmonic up to degree 10 (thorough: 30), given by cosine, sine or J; sums
  of all the harmonics up to all degrees up to 30; J2 bodies; 8 bodies and 3
  tolerances for the damping.  In each case 4 rotations, 2 or 3 times, 63
  directions and up to 50 distances around the thresholds.''',
  '''Each degree and order is its own code, and the thresholds interact with the
  structure of the coefficients (holes, dominant terms).''',
  ['physics/geopotential_body.hpp', 'physics/harmonic_damping_body.hpp',
   'physics/oblate_body_body.hpp', 'physics/rotating_body_body.hpp'],
  [('harmonics', 'physics/geopotential_body.hpp: DegreeNOrderM, '
    'DegreeNAllOrders, AllDegrees'),
   ('thresholds', 'physics/geopotential_body.hpp: Geopotential')],
  dict(harness=['C46_geopotential.cc'], protos=['physics', 'geometry'],
       math=True, opt='-O1',
       rule='A case is a body and a tolerance.'),
  technique=ENUM_TECH)

S('C44', 'An ephemeris integrates its bodies, and vessels, in their field',
  '''The accelerations, potentials, and (for the point masses) jerks and Jacobians
  given by an ephemeris at any time are the ones of the Newtonian field of its
  bodies at that time, with their geopotential; actions on the massive bodies
  are equal to reactions.  The bodies, returned in the order in which they were
  given, follow that field, and so do vessels, with their intrinsic
  acceleration: flowing with an adaptive step returns OK if and only if the
  trajectory was integrated exactly until the requested time, with a fixed step
  it stops within a step before the requested time and each of several vessels
  does as if it was alone.  Prolonging reaches the requested time, or respects
  the limit on the number of steps and makes progress.  An ephemeris that is
  saved, restored at or before any time since its beginning, prolonged and
  reanimated in any way is identical (same values to the last bit, same message)
  to the one that was never saved.  The apsides are those of the relative
  motion.''',
  '''10 systems (thorough: 18) of up to 4 bodies, point masses and oblate, 2
  integrators, 5 times; all subsets of the bodies in both orders; 5 positions
  near each body.  3 systems, 3 vessels, separately and all subsets together, 4
  histories of flows, 4 limits of ephemeris steps, 3 of integrator steps; all
  compared with an independent integration in extended precision.  48 sequences
  of prolongations for 4 systems and 2 integrators over 100 steps and 6
  checkpoints; 4 times of saving (thorough: 8), 8 times of restoration, 3 of
  prolongation, 5 sequences of reanimations, then a second save and restoration.
  48 ellipses for the apsides.''',
  '''The oblate bodies are reordered internally, each pair of kinds of bodies has
  its own code, and a restart reconstructs both the integrator and the
  trajectories from checkpoints, so what goes wrong depends on the order of the
  bodies, or on the times of checkpoint, save, and restoration.''',
  ['physics/ephemeris_body.hpp', 'physics/checkpointer_body.hpp',
   'physics/continuous_trajectory_body.hpp'],
  [('field', 'physics/ephemeris_body.hpp: '
    'ComputeGravitationalAccelerationByMassiveBodyOnMassiveBodies, '
    'ComputeGravitationalAccelerationByMassiveBodyOnMasslessBodies'),
   ('flows', 'physics/ephemeris_body.hpp: FlowODEWithAdaptiveStep, '
    'FlowWithFixedStep, Prolong'),
   ('restarts', 'physics/ephemeris_body.hpp: ReadFromMessage, Reanimate')],
  dict(harness=['C44_accelerations.cc', 'C44_histories.cc'],
       protos=['physics', 'geometry', 'integrators'], math=True, opt='-O1',
       repo=['base/flags.cpp', 'base/zfp_compressor.cpp'],
       rule='A case is a system, vessels, and their history; a state is the '
            'final message.'),
  'The reanimator runs on its own thread, under the schedules that happen: those '
  'of recurring threads are explored separately.  Collisions are not explored.',
  technique=ENUM_TECH)

S('C45', 'Reference frames move, and make things fall, as they are defined',
  '''For each reference frame (nonrotating or fixed to the surface of a body,
  centred on a body or spacecraft and directed to a body, rotating or
  rotating-pulsating with the barycentres of sets of bodies), the motion to the
  frame maps positions to the coordinates along the axes that define it, maps
  velocities to their derivatives, and is the inverse of the motion from it.
  The geometric acceleration is the second derivative in the frame of a free
  fall; the rotation-free one is its part at rest that has no curl, and the
  opposite of the gradient of the geometric potential.  The Frenet frame has the
  velocity, then the acceleration, in its first plane.  The results don't depend
  on what was asked before.  A frame that is saved and read is equal to the
  original, with the same key; frames are equal if and only if they have the
  same type and the same sets of bodies.''',
  '''4 systems of 4 bodies; all the pairs, all the disjoint sets of primaries and
  secondaries, all the bodies; 5 times; 20 positions, each with 3 velocities.
  Sequences of 3 (thorough: 4) of the 6 operations at 2 times; all pairs of
  frames for equality.''',
  '''The accelerations combine the second derivatives of the axes, which depend on
  the accelerations and jerks of all the bodies; some of these are cached by
  time.''',
  ['physics/reference_frame_body.hpp', 'physics/rigid_reference_frame_body.hpp',
   'physics/barycentric_rotating_reference_frame_body.hpp',
   'physics/body_centred_body_direction_reference_frame_body.hpp',
   'physics/body_centred_non_rotating_reference_frame_body.hpp',
   'physics/body_surface_reference_frame_body.hpp',
   'physics/rotating_pulsating_reference_frame_body.hpp'],
  [('derivatives of the axes', 'physics/rigid_reference_frame_body.hpp: '
    'ComputeTrihedraDerivatives2, ComputeAngularAcceleration'),
   ('accelerations', 'physics/rigid_reference_frame_body.hpp: '
    'ComputeGeometricAccelerations, GeometricPotential'),
   ('cache', 'physics/barycentric_rotating_reference_frame_body.hpp: '
    'BarycentreDerivative')],
  dict(harness=['C45_reference_frames.cc'],
       protos=['physics', 'geometry', 'integrators'], math=True, opt='-O1',
       repo=['base/flags.cpp', 'base/zfp_compressor.cpp'],
       rule='A case is a system, a frame, and a time.'),
  'The derivatives of the motion of the oracle are those of the field of the '
  'ephemeris, in which jerks ignore the geopotential.',
  technique=ENUM_TECH)

S('C47', 'Kepler orbits agree with two-body motion, however specified',
  '''A Kepler orbit may be specified by any two elements that determine its conic,
  by either the argument or the longitude of its periapsis, and by any of its
  anomalies, or by its state at the epoch.  In all cases, elliptic or
  hyperbolic, before or after the periapsis, it determines the same elements,
  those that have no meaning being NaN, and the same states, before, at and
  after the epoch, which are those of the motion of two bodies in their mutual
  field.  This includes states whose orbit is circular or equatorial.  Elements
  that are not minimally specified are caught.  A hierarchical system places its
  bodies in preorder, by increasing semimajor axis, on the Kepler orbits of each
  system around the barycentre of what is inside its orbit, with the barycentre
  of the whole motionless at the origin; so do Jacobi coordinates.''',
  '''6 eccentricities (3 hyperbolic), all the pairs of the 16 elements of the
  conic, 5 anomalies, 2 orientations, both scales, massive or massless, 8 times;
  states for 7 eccentricities, 5 inclinations, 3 nodes, 4 periapsides, 5
  anomalies; all the states along the axes.  All the subsets of elements, for
  those that are misspecified.  All the trees of 5 bodies (thorough: 6), all the
  orders of their semimajor axes, 3 ways of specifying them.''',
  '''There is a formula for each pair of elements; quadrants, signs and undefined
  directions only matter in some cases.''',
  ['physics/kepler_orbit_body.hpp', 'physics/jacobi_coordinates_body.hpp',
   'physics/hierarchical_system_body.hpp'],
  [('elements', 'physics/kepler_orbit_body.hpp: CompleteConicParameters, '
    'CompleteConicParametersByCategory, CompleteAnomalies'),
   ('states', 'physics/kepler_orbit_body.hpp: StateVectors'),
   ('systems', 'physics/hierarchical_system_body.hpp: ToBarycentric')],
  dict(harness=['C47_kepler_orbits.cc', 'C47_hierarchies.cc'],
       protos=['physics', 'geometry'], math=True, opt='-O1',
       rule='A case is an orbit, or a system of bodies.'),
  'Parabolic orbits are not implemented.', technique=ENUM_TECH)

S('C48', 'Apsides, nodes and collisions of a trajectory are found',
  '''For each pair of consecutive points between which the distance to a reference
  stops decreasing and starts increasing, or conversely, exactly one periapsis,
  or apoapsis, is found, at a time between these points at which the derivative
  of the distance vanishes, with the state of the trajectory then; likewise for
  the nodes, ascending or descending with respect to the given north, when the
  trajectory crosses the xy plane.  Only the given points, until the given time,
  and while the reference is known, are considered, until there are enough
  points of both kinds; nodes may be filtered.  The intervals where a collision
  is possible are those where the trajectory is below the largest radius of the
  body, and the first time in such an interval where it is on the surface of the
  rotating body is found, if there is one, to the given accuracy.''',
  '''All the trajectories of 2 points (thorough: 3) from a lattice of 24 states,
  including singular ones, 3 scales and times; 3 points from 16 states for the
  nodes, with filters.  2.25 turns of 48 Kepler orbits, 4 phases, 2 samplings, 6
  ranges, with limits; still or in translation.  Collisions with a sphere or an
  irregular body, for 5 periapsides.''',
  '''The points at the limits of intervals, with vanishing derivatives, and
  intervals that start or end the trajectory are all special cases.''',
  ['physics/apsides_body.hpp', 'numerics/hermite3_body.hpp'],
  [('apsides', 'physics/apsides_body.hpp: ComputeApsides, ComputeNodes'),
   ('collisions', 'physics/apsides_body.hpp: ComputeCollisionIntervals, '
    'ComputeFirstCollision')],
  [dict(harness=['C48_apsides.cc'], protos=['physics', 'geometry'], math=True,
        opt='-O1', repo=['base/zfp_compressor.cpp'],
        rule='A case is a trajectory and a range of it, or a body.'),
   dict(harness=['C48_apsides_lattice.cc'], protos=['physics', 'geometry'],
        math=True, asan=True, repo=['base/zfp_compressor.cpp'],
        rule='A case is a trajectory.')],
  'Trajectories that start or end exactly at an apsis are not explored for '
  'collisions: the code may give up.', technique=ENUM_TECH)

S('C49', 'The rotation of a free rigid body follows the equations of Euler',
  '''The angular momentum of a rigid body, in its principal axes, and its attitude
  are, at any time before or after the initial time, and whatever its moments of
  inertia (sphere, body of revolution or not) and its angular momentum (including
  at rest, about a principal axis, or on a separatrix), those of the solution of
  the equations of Euler.  The attitude is a rotation that takes the angular
  momentum to its constant value in the inertial axes; the norm of the angular
  momentum and the kinetic energy are conserved; the motion has the angular
  velocity and the linear motion that it should.  A solver may be saved, or
  restarted at any time.  The mass, centre of mass, angular momentum and inertia
  tensor of a system of rigid bodies are those of its point masses.''',
  '''10 (thorough: 15) triples of moments of inertia, with equal or almost equal
  ones, 47 momenta including all directions with coordinates in {-1, 0, 1} and
  directions very close to the axes and to the separatrix, 4 attitudes, spin
  rates and masses, 9 times in the past and the future (3 turns); saved or not.
  All the systems of 1 to 3 bodies out of 5 (thorough: 7) in motion.''',
  '''The solution uses different formulae, projections and signs depending on the
  octant, on the side of the separatrix and on degenerate moments of inertia.''',
  ['physics/euler_solver_body.hpp', 'physics/mechanical_system_body.hpp',
   'numerics/elliptic_functions.cpp', 'numerics/elliptic_integrals.cpp'],
  [('euler', 'physics/euler_solver_body.hpp: EulerSolver'),
   ('systems', 'physics/mechanical_system_body.hpp: MechanicalSystem')],
  [dict(harness=['C49_euler_solver.cc'], protos=['physics', 'geometry'],
        math=True, opt='-O1', repo=['base/zfp_compressor.cpp'],
        rule='A case is a body, its state and a time; the reference is an '
             'integration of the equations of Euler.'),
   dict(harness=['C49_mechanical_system.cc'], protos=['physics', 'geometry'],
        math=True, opt='-O1', repo=['base/zfp_compressor.cpp'],
        rule='A case is a sequence of bodies.')],
  technique=ENUM_TECH)

S('C52', 'Checkpointers are maps from instants to checkpoints',
  '''After any sequence of writes, conditional writes, changes of writer, saves
  and restorations (with or without a rewriter), a checkpointer holds exactly
  the checkpoints that were written, with what the writer at the time produced.
  A conditional write takes place if and only if there is no checkpoint, or the
  newest one is older than the given duration.  The oldest, the newest, the one
  at, at or before, or at or after any instant, and these in any interval, are
  the right ones; reading one passes it once to the reader and returns the
  status of the reader; reading one that does not exist is reported as not
  found, and does not call the reader.''',
  '''All the sequences of 4 (thorough: 5) operations with 4 instants and 2
  durations, one of them exactly the distance between instants; after each,
  all the queries at these instants, between, before and after them, and for
  all the intervals including these in the wrong order.''',
  '''The tests make one query after a couple of writes in increasing order.''',
  ['physics/checkpointer_body.hpp'],
  [('lookups', 'physics/checkpointer_body.hpp')],
  dict(harness=['C52_checkpointer.cc'], protos=['testing_utilities'], math=True,
       repo=['base/flags.cpp'],
       rule='A case is a sequence of operations.'))

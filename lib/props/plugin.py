"""Properties of the plugin: parts, pile-ups, vessels and flight plans."""

S('C60', 'The parts that touch move like Newtonian bodies under physics or warp',
  '''A pile-up of parts moves so that its centre of mass is subject to gravity and
  to the sum of the forces on its parts divided by its mass, whatever the game
  reported; and so that its angular momentum about its centre of mass is that of
  its parts when it was formed, plus the integral of the torques on its parts
  (including those of the forces, about the centre of mass) while the game
  simulates them, plus the momentum lost with the mass by solid rocket motors.
  While the game simulates the parts, the shape of the pile-up and the motion of
  the parts with respect to each other are the ones reported by the game; while
  it doesn't, the pile-up rotates as a free rigid body.  Advancing to a time that
  is not in the future does nothing.  The trajectories of the parts contain,
  after each advance, points at all the fixed steps since the last one (when no
  force applies) and end at the current time; their barycentre follows the
  centre of mass.  A pile-up and its parts that are saved and read again continue
  the same motion.''',
  '''All the sequences of 4 (5) of 15 operations on 1 to 3 parts of various shapes:
  8 steps of simulation of 0.02 s to 12 s with rotations, deformations, forces,
  torques and losses of mass, 4 durations of warp, one with a force, saving and
  reading, advancing to the past.''',
  '''Tests check a few steps with 2 parts; the state that a step leaves for the
  next one (the solver of the rotation, the instance of the integrator, the two
  segments of each trajectory) depends on the mix of forces and warp before
  it.''',
  ['ksp_plugin/pile_up.hpp', 'ksp_plugin/pile_up.cpp', 'ksp_plugin/part.hpp',
   'ksp_plugin/part.cpp'],
  [('rotation', 'ksp_plugin/pile_up.cpp: PileUp::DeformPileUpIfNeeded, '
    'RecomputeFromParts'),
   ('translation', 'ksp_plugin/pile_up.cpp: PileUp::AdvanceTime, NudgeParts'),
   ('parts', 'ksp_plugin/part.cpp')],
  dict(harness=['C60_pile_ups.cc'], math=True, opt='-O1',
       protos=['ksp_plugin'],
       repo=['ksp_plugin/pile_up.cpp', 'ksp_plugin/part.cpp',
             'ksp_plugin/integrators.cpp',
             'ksp_plugin/identification.cpp', 'base/flags.cpp',
             'base/zfp_compressor.cpp'],
       # The comparator of vessels, which isn't used, needs all of vessel.cpp.
       libs=['-Wl,--unresolved-symbols=ignore-in-object-files'],
       rule='A case is a sequence of operations on a pile-up.'),
  note='The oracle is a model of Newtonian mechanics in extended precision.  '
       'Forces are constant during a step.  '
       'The trajectories of the parts are cleared after each step, as the '
       'vessel does.  While warping, torques have no '
       'effect on the rotation.',
  technique=ENUM_TECH)

S('C61', 'Flight plans are what their burns say, whatever was edited before',
  '''A flight plan alternates coasts under gravity and burns: each burn starts when
  it says (or has half its Δv when it says), with the initial mass of the plan
  less the mass of the propellant of all the burns that precede it, lasts as long
  as the rocket equation says, and accelerates in the direction that its
  coordinates denote in the Frenet frame of its reference frame, either the one
  at its start or the one at each time.  This doesn't depend on the sequence of
  insertions, removals, replacements, and changes of the parameters and of the
  final time that led to it, nor on its having been copied or saved and read
  (except that a burn that is read is defined by its initial time).  A burn that
  is not between the end of the previous one and the start of the next one, or
  that has a singular Δv, and a final time before the end of the last burn, are
  rejected and have no effect.  The segments that follow one that cannot be
  computed (because of the limit of steps, or because a change of the masses
  makes burns overlap) are empty and are counted as anomalous, with the status of
  the first one, and are computed again when that's possible.  The intensity,
  timing and coordinates of a manœuvre are consistent with each other.''',
  '''All the sequences of 3 (4) edits: insertions anywhere of 6 burns (inertial or
  not, in 2 reference frames, in Cartesian or spherical coordinates, timed by
  their start or their middle, of zero or infinite Δv), replacements, removals, 4
  final times, 2 sets of parameters, copies, saves.  Manœuvres with 8 Δv, 4
  engines, 3 masses and all the options.''',
  '''Each edit recomputes only what it believes to be affected, so that a mistake
  leaves stale masses or segments behind, which no test compares with a plan that
  is made from scratch.''',
  ['ksp_plugin/flight_plan.hpp', 'ksp_plugin/flight_plan.cpp',
   'ksp_plugin/manœuvre.hpp', 'ksp_plugin/manœuvre_body.hpp'],
  [('edits', 'ksp_plugin/flight_plan.cpp: FlightPlan::Insert, Remove, Replace, '
    'SetDesiredFinalTime'),
   ('segments', 'ksp_plugin/flight_plan.cpp: FlightPlan::ComputeSegments'),
   ('burns', 'ksp_plugin/manœuvre_body.hpp: Manœuvre')],
  dict(harness=['C61_flight_plans.cc'], math=True, opt='-O1',
       protos=['ksp_plugin'],
       repo=['ksp_plugin/flight_plan.cpp', 'ksp_plugin/orbit_analyser.cpp',
             'ksp_plugin/integrators.cpp', 'base/flags.cpp',
             'base/zfp_compressor.cpp'],
       rule='A case is a sequence of edits, or a manœuvre.'),
  note='The oracle is an integration of the equations of motion in extended '
       'precision.  The prolongation of the ephemeris in the background and the '
       'analysis of the orbits are not part of it.',
  technique=ENUM_TECH)

S('C62', 'Vessels keep their history, parts, predictions and flight plans',
  '''The trajectory of a vessel goes through the barycentre of its parts at every
  time in their histories, exactly without downsampling, and within the tolerance
  of the downsampling with it; then through its psychohistory, which ends at the
  current time, and its prediction, which starts there and follows gravity and
  is replaced (and not left behind) each time that it is refreshed, even if it
  cannot be computed.  After any sequence of coasts, burns, dockings, undockings
  and savings, whatever was saved can be read and continued, and reanimating the
  vessel recovers its entire trajectory with the same tolerance.  Adding,
  keeping, extracting and freeing parts leaves exactly the parts it says.  Each
  of the flight plans of a vessel is what was made of it, whatever happens to the
  others: creating, duplicating, deleting and selecting change only the list and
  the selection as documented, deleting does nothing without a flight plan, and
  rebasing a flight plan fails during a burn, and otherwise makes it start from
  the present with the given mass, with the future burns that fit.''',
  '''All the sequences of 4 (5) of 10 operations, with and without downsampling:
  coasts of 25 s and 57 h, short and long burns, torques, saving and reading,
  reanimation, predictions that succeed or fail, docking and undocking.  All the
  sequences of 6 (7) operations on 3 parts.  All the sequences of 5 (6) of 12
  operations on flight plans.''',
  '''The segments and checkpoints of a vessel depend on the interleaving of burns,
  coasts, dockings and saves; tests have one scenario.''',
  ['ksp_plugin/vessel.hpp', 'ksp_plugin/vessel.cpp'],
  [('histories', 'ksp_plugin/vessel.cpp: Vessel::AdvanceTime, '
    'EnactCollapsibilityChange, Reanimate, AttachPrediction'),
   ('flight plans', 'ksp_plugin/vessel.cpp: Vessel::DuplicateFlightPlan, '
    'RebaseFlightPlan')],
  dict(harness=['C62_vessels.cc'], math=True, opt='-O1',
       protos=['ksp_plugin'],
       repo=['ksp_plugin/vessel.cpp', 'ksp_plugin/flight_plan.cpp',
             'ksp_plugin/flight_plan_optimizer.cpp',
             'ksp_plugin/flight_plan_optimization_driver.cpp',
             'ksp_plugin/orbit_analyser.cpp', 'ksp_plugin/celestial.cpp',
             'ksp_plugin/pile_up.cpp', 'ksp_plugin/part.cpp',
             'ksp_plugin/identification.cpp',
             'ksp_plugin/integrators.cpp', 'base/flags.cpp',
             'base/zfp_compressor.cpp'],
       rule='A case is a sequence of operations on a vessel.'),
  note='Predictions are computed synchronously.  The optimization of flight '
       'plans and the analysis of orbits are not part of it.  Games saved by '
       'old versions are not read.',
  technique=ENUM_TECH)

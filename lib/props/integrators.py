"""Properties of the integrators."""
S('C30', 'Fixed-step integrations depend neither on their pieces nor on saving',
  '''A fixed-step integration produces the states at the initial time plus 1, 2,
  3... steps, up to and including the final time.  Integrating in several
  pieces, cloning an instance and continuing with either (which don't affect
  each other), or saving an instance and continuing with the one restored, at
  any point, even while a multistep method is starting, gives the same states as
  integrating in one go.  Symmetric methods integrated backward come back to
  their initial state; an equation that aborts stops the integration after its
  current step, and any error that it returns is reported.''',
  '''All 49 symplectic and symmetric multistep methods and 6 first-order methods, 3
  steps, all the ways of cutting the integration in 2 pieces (3 for the
  multistep methods) at 4 places in each step, with each of 4 actions (nothing,
  saving, continuing with the clone, or the original) at each cut; errors and
  aborts at each evaluation.''',
  '''The multistep methods have a startup phase whose state is distinct from that
  of the steady phase, and tests only clone and save after it.''',
  ['integrators/symplectic_runge_kutta_nyström_integrator_body.hpp',
   'integrators/symmetric_linear_multistep_integrator_body.hpp',
   'integrators/explicit_linear_multistep_integrator_body.hpp',
   'integrators/explicit_runge_kutta_integrator_body.hpp',
   'integrators/starter_body.hpp', 'integrators/integrators_body.hpp'],
  [('startup', 'integrators/starter_body.hpp'),
   ('compensated time', 'numerics/double_precision_body.hpp: Increment')],
  dict(harness=['C30_fixed_step.cc'], protos=['integrators'], math=True,
       opt='-O1',
       rule='A case is a method, a step, a way of cutting the interval in '
            'pieces, and the action at a cut.',
       assumptions=['Compositions whose first evaluation is shared with the '
                    'previous step may differ by rounding when restarted.']))

S('C31', 'Integration methods have the order that they announce',
  '''Each integration method has the order that it announces: the errors decrease
  at least as that power of the step on nonlinear problems with known solutions,
  and polynomials of the corresponding degree are integrated exactly.  The
  embedded methods have their higher order for the solution, and an error
  estimate of their lower order.''',
  '''All 53 fixed-step methods and 4 embedded methods; 3 to 5 problems, forward
  and backward; steps from 1/4 of the time scale of the problem down to where
  rounding dominates (or 2^-12 of it); polynomials of all degrees up to the
  order, 3 or 4 steps.''',
  '''Each method is a table of tens of coefficients, and an error in any one of
  them (one was found and repaired) reduces the order without preventing
  convergence; the tests cover a few methods.''',
  ['integrators/methods.hpp',
   'integrators/symplectic_runge_kutta_nyström_integrator_body.hpp',
   'integrators/symmetric_linear_multistep_integrator_body.hpp',
   'integrators/cohen_hubbard_oesterwinter_body.hpp',
   'integrators/embedded_explicit_runge_kutta_nyström_integrator_body.hpp',
   'integrators/embedded_explicit_runge_kutta_integrator_body.hpp'],
  [('coefficients', 'integrators/methods.hpp'),
   ('stages', 'integrators/*_body.hpp: Solve')],
  dict(harness=['C31_orders.cc', 'C31_embedded.cc'], protos=['integrators'],
       math=True, opt='-O1',
       rule='A case is a method, a problem and a direction, or a method, a '
            'degree and a step.'),
  'Orders above 7 are only checked to be at least 7 - 0.75 for the symplectic '
  'and multistep methods on nonlinear problems, because rounding is reached.')

S('C32', 'Adaptive integrations keep to their tolerance, end and step limit',
  '''An adaptive-step integration, forward or backward, only produces steps whose
  tolerance-to-error ratio is at least 1, after retrying with smaller steps, and
  it starts with the given first step.  When the last step has to be exact, the
  last time is exactly the final time; otherwise it is the last step that
  doesn't exceed it, and the integration may be resumed, cloned or saved there
  without changing its subsequent states.  At most the given number of steps is
  taken, in which case the integration says so, and it reports vanishing steps
  near a singularity, as well as the errors of the equation in accepted
  steps.''',
  '''The 4 embedded methods; 3 motions, 3 tolerances, 3 durations, 4 first steps
  from 1/1000 of the time scale to 100 times, both directions, both kinds of
  ends; then all the limits on the number of steps up to 12 (thorough: 40), or
  restarting (with and without saving and cloning) in each of the first 12
  steps; errors at each of the first 150 evaluations (thorough: 400).''',
  '''What is kept from one step to the next or from one call to the next differs
  according to the method and to how the step ended; the tests always go
  forward.''',
  ['integrators/embedded_explicit_runge_kutta_nyström_integrator_body.hpp',
   'integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator_body.hpp',
   'integrators/embedded_explicit_runge_kutta_integrator_body.hpp',
   'integrators/integrators_body.hpp'],
  [('step control', 'integrators/embedded_*_body.hpp: Solve')],
  dict(harness=['C32_adaptive.cc'], protos=['integrators'], math=True,
       opt='-O1',
       rule='A case is a method, a problem, its parameters, and a limit or a '
            'restarting point; a state is a number of steps.'))

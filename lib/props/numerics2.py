"""More properties of numerics."""
ENUM_TECH = ('bounded-exhaustive enumeration of the real code: every case of a '
             'stated finite set is executed and compared with an independent '
             'oracle')

S('C22', 'Floating-point primitives and double-double arithmetic are exact',
  '''NextUp, NextDown, LogB, ScaleB and ULPDistance are those of IEEE 754, for
  all the floating-point numbers.  TwoSum, TwoDifference, TwoProduct and, for
  ordered operands, QuickTwoSum, QuickTwoDifference, Increment and Decrement are
  exact; the operations on double-double numbers are within a few units of
  2^-106, Trunc and Frac are exact.  The reduction of an angle modulo π or 2π
  yields an angle in the given interval, congruent to the argument with the
  integer quotient given, for all magnitudes.''',
  '''All the exponents and 1500 mantissas for binary32 (thorough: all binary32
  numbers) and 350 for binary64; scaling by all the powers from -2200 to 2200 in
  steps of 11 (thorough: 1); pairs of operands with 8 structured mantissas and
  exponents up to 30 apart; 9 angles around each of 2000 multiples of π/4 at 4
  scales, and for all the exponents from -300 to 1020.''',
  '''Overflow, subnormals, ties, cancellation, and arguments close to a multiple
  of π/2 only show up for specific operands.''',
  ['numerics/next_body.hpp', 'numerics/scale_b_body.hpp',
   'numerics/log_b_body.hpp', 'numerics/ulp_distance_body.hpp',
   'numerics/double_precision_body.hpp', 'numerics/angle_reduction_body.hpp',
   'numerics/fma_body.hpp', 'numerics/elementary_functions_body.hpp'],
  [('error-free transformations', 'numerics/double_precision_body.hpp'),
   ('large angles', 'numerics/angle_reduction_body.hpp: PayneHanekReduction')],
  [dict(harness=['C22_floating_point.cc'], protos=['numerics'], math=True,
        opt='-O2',
        rule='A case is a number, a pair of numbers or an angle.',
        assumptions=['The oracles are the C library, binary128 arithmetic, and '
                     'the reduction of arguments of the C library.']),
   dict(harness=['C22_floating_point.cc'], protos=['numerics'], math=True,
        opt='-O2', fma=True, rule='As above, with FMA.')],
  over=('inputs',), technique=ENUM_TECH)

S('C23', 'Arrays, matrix views and matrix computations agree with linear algebra',
  '''The operations on fixed and unbounded vectors and matrices, on triangular
  matrices (including extension and truncation) and on block, column and
  transposed views are those of linear algebra, and only affect the elements
  that they designate.  Solve, substitutions, the Cholesky and ᵗRDR
  decompositions and the Gram-Schmidt processes yield factors whose product is
  the argument, for all nonsingular (resp. positive definite) arguments; the
  Hessenberg and real Schur decompositions terminate, preserve the
  characteristic polynomial, have the proper form, and yield all the real
  eigenvalues; Jacobi's method and the Rayleigh quotient iteration yield
  the eigensystem of symmetric matrices.''',
  '''All the 3×3 matrices with elements in [-2, 2] (thorough: [-3, 2]) and 4×4
  matrices with elements 0 and 1, or -1 in the first row and column (thorough:
  all elements in [-1, 1]), symmetric 3×3 matrices in [-3, 3] and 4×4 in
  [-1, 1], starting points of the iterations off by 0 to 0.02; all the blocks of
  4×4 matrices and 8 operations; all the sequences of 4 (thorough: 5) extensions,
  truncations and writes.''',
  '''Failures of numerical algorithms are for degenerate matrices: null columns,
  pivots which vanish in the course of the elimination, cycles of the QR
  algorithm, exact eigenvalues.''',
  ['numerics/matrix_computations_body.hpp', 'numerics/fixed_arrays_body.hpp',
   'numerics/unbounded_arrays_body.hpp', 'numerics/matrix_views_body.hpp',
   'numerics/transposed_view_body.hpp'],
  [('decompositions', 'numerics/matrix_computations_body.hpp'),
   ('storage of triangular matrices', 'numerics/unbounded_arrays_body.hpp')],
  [dict(harness=['C23_arrays.cc', 'C23_matrix_computations.cc'],
        protos=['numerics'], math=True, opt='-O2',
        rule='A case is one or two matrices and an operation, or a sequence of '
             'operations.',
        assumptions=['The oracle is exact integer arithmetic (determinants, '
                     'characteristic polynomials, Sturm sequences).'])],
  over=('inputs',), technique=ENUM_TECH)

S('C24', 'Polynomials in the monomial basis obey the algebra of polynomials',
  '''A polynomial in the monomial basis evaluates, with any evaluator and through
  the virtual functions, to the sum of its coefficients times powers of its
  argument minus its origin, and to the derivative of that sum; these are exact
  when all the intermediate results are.  Sums, differences, products, inner
  products, composition, changes of origin, derivatives, primitives and
  integrals are those of polynomials, and serialization and changes of degree
  and evaluator yield equal polynomials.''',
  '''All the degrees from 0 to 16 and the 4 evaluators, with 2 dense polynomials
  and each of the monomials, 9 arguments and 3 origins; all the polynomials of
  degree at most 3 (calculus: 8) with coefficients 0, 1 and -2, in pairs for the
  arithmetic; scalar, vector and affine values.''',
  '''Evaluators are recursive templates specialized by degree: an error may be
  specific to a degree, a coefficient and an evaluator.''',
  ['numerics/polynomial_in_monomial_basis_body.hpp',
   'numerics/polynomial_evaluators_body.hpp', 'numerics/polynomial_body.hpp',
   'quantities/tuples_body.hpp'],
  [('evaluation', 'numerics/polynomial_evaluators_body.hpp'),
   ('arithmetic', 'numerics/polynomial_in_monomial_basis_body.hpp')],
  [dict(harness=['C24_evaluation.cc', 'C24_serialization.cc',
                 'C24_arithmetic.cc'],
        protos=['numerics'], math=True, opt='-O0',
        rule='A case is a polynomial or a pair thereof and an argument.',
        assumptions=['The oracle evaluates polynomials with small integer '
                     'coefficients, exactly.'])],
  over=('inputs',), technique=ENUM_TECH)

S('C25', 'Чебышёв polynomials, their roots, interpolation, Newhall approximation',
  '''A polynomial in the Чебышёв basis evaluates to its value and derivative, and
  survives serialization; for a nonzero scalar polynomial RealRoots returns its
  real roots, if simple, in its interval (those at a bound may be missed due to
  rounding) and nothing else, and MayHaveRealRoots is true if it has a root or
  comes closer to zero than the error given.  Interpolants match the function at
  the Чебышёв-Lobatto points, and within the error estimate at those of twice
  their degree; an adaptive interpolation yields, in order, contiguous
  interpolants that cover the interval, each of them within the error bound or
  one that the client didn't want to subdivide, until the client stops it.  The
  Newhall approximations in both bases match the polynomials of their degree,
  and always the position and velocity at both ends.''',
  '''Degrees 0 to 17 with a dense polynomial and each element of the basis, at 17
  arguments, for scalar and vector values and 3 types of arguments; roots for all
  the polynomials of degree at most 4 with coefficients in [-3, 3], and of degree
  5 and 6 with coefficients in [-1, 1] (thorough: [-2, 2]); interpolation of 10
  functions in 4 intervals with 5 error bounds; all sequences of 5 (thorough: 7)
  decisions to subdivide and 3 positions of the stop; Newhall approximation of
  degree 3 to 17 of 20 polynomials over 9 intervals.''',
  '''Degenerate polynomials (degree 0 or 1, leading coefficient zero), roots of
  the companion matrix outside the interval, and sequences of decisions of the
  clients are not exercised by typical uses.''',
  ['numerics/polynomial_in_чебышёв_basis_body.hpp',
   'numerics/approximation_body.hpp', 'numerics/newhall_body.hpp',
   'numerics/чебышёв_lobatto_body.hpp'],
  [('evaluation and roots', 'numerics/polynomial_in_чебышёв_basis_body.hpp'),
   ('interpolation', 'numerics/approximation_body.hpp'),
   ('Newhall approximation', 'numerics/newhall_matrices.mathematica.h')],
  [dict(harness=['C25_chebyshev.cc', 'C25_approximation.cc'],
        protos=['numerics'], math=True, opt='-O0',
        rule='A case is a polynomial, or a function, an interval and a sequence '
             'of decisions.',
        assumptions=['The oracle is the expansion of Чебышёв polynomials, and '
                     'the isolation of roots by Sturm sequences, both exact.'])],
  over=('inputs',), technique=ENUM_TECH)

S('C26', 'Root finders and minimizers converge; Hermite interpolation is exact',
  '''Bisect and Brent's zero terminate, for any function with opposite signs at the
  bounds, within one ULP (resp. 4ε relative) of a zero or change of sign, and
  reject bounds with the same sign.  Golden section search and Brent's minimizer
  terminate within the bounds, at a minimum or maximum if the function is
  unimodal, and Brent's result is the best evaluation; DoubleBrent returns only
  zeroes, and all of them if there are at most two.  SolveQuadraticEquation
  (second-degree coefficient nonzero) returns the solutions, sorted, within a few
  ULPs, with their exact number even close to a double root.  Hermite polynomials
  have the given values and derivatives; FindExtrema and FindExtremum are exact,
  the norms and errors are maxima (resp. upper bounds) over the interval.''',
  '''All the functions with values in {-1, 0, 1} (resp. 6 values including the tiny
  1e-300) at the points where they are evaluated, over intervals of up to 60
  (resp. 9, thorough: 12) ULPs around 0, 1 and -7.3; 12 monotonic and 10 unimodal
  functions with 9 positions of the root in 25 intervals; polynomials with 0 to 3
  roots; all the quadratic equations with coefficients in [-6, 6] and 11×11 pairs
  of roots including nearly equal ones, with the constant perturbed by an ULP;
  Hermite polynomials with all values in [-2, 2] and derivatives in [-3, 3].''',
  '''Termination and correctness of these algorithms depend on arbitrary sequences
  of signs and magnitudes of the function, and on rounding.''',
  ['numerics/root_finders_body.hpp', 'numerics/hermite2_body.hpp',
   'numerics/hermite3_body.hpp'],
  [('root finders', 'numerics/root_finders_body.hpp'),
   ('interpolation', 'numerics/hermite3_body.hpp')],
  [dict(harness=['C26_root_finders.cc'], protos=['numerics'], math=True,
        opt='-O1',
        rule='A case is a function (given by the sequence of the values that it '
             'returns) and an interval.')],
  over=('inputs',), technique=ENUM_TECH)

S('C27', 'Nearest neighbour searches are exact',
  '''After any construction and sequence of additions, FindNearestNeighbour returns
  one of the values given by the client, such that the filter is true and no
  other such value is closer to the argument (up to rounding).  It returns null
  if and only if there is no such value.''',
  '''All the sequences of at most 4 (thorough: 5) points, possibly identical, on a
  plane, line or in space, split in all manners between construction and
  additions, with 1 to 3 values per cell, all the filters, and queries at the
  points, between them and far away; all the subsets of 11 (thorough: 14) points
  of a lattice.''',
  '''Whether both sides of a separator must be searched depends on the relative
  positions of all the points and of the query.''',
  ['numerics/nearest_neighbour_body.hpp'],
  [('tree', 'numerics/nearest_neighbour_body.hpp')],
  [dict(harness=['C27_nearest_neighbour.cc'], protos=['numerics'], math=True,
        opt='-O1',
        rule='A case is a sequence of points, a query and a filter.')],
  over=('inputs', 'histories'), technique=ENUM_TECH)

S('C28', 'Quadratures, Fourier transforms, finite differences are exact',
  '''Up to rounding errors: Gauss-Legendre quadrature with n points is exact for
  polynomials of degree less than 2n; Clenshaw-Curtis quadrature with n points
  is exact for polynomials of degree less than n, evaluates the function once at
  each of the points, doubles their number until two successive estimates agree
  or the maximum number of points is reached, and returns the estimate for the
  last one; the midpoint rule is the sum over the middles of the intervals.
  The fast Fourier transform is the discrete one, for real numbers and vectors;
  the spectrum has the squared norms at the right frequencies, and its mode is
  the interval around its largest value within the range.  Finite differences
  on n values are exact for polynomials of degree less than n, at any offset.''',
  '''Gauss-Legendre from 1 to 50 points, all degrees (and one too many), 6
  intervals including inverted and empty ones; Clenshaw-Curtis starting with 2,
  3, 5, or 9 points with any maximum number of points up to 70 (thorough: 140),
  all degrees; with a tolerance, degrees up to 128; all the signals over 3
  values for sizes up to 8, all the impulses and (up to 64) pairs of impulses
  for sizes up to 256 (thorough: 1024), all the ranges of frequencies; finite
  differences for 1 to 9 values, all the offsets and degrees.''',
  '''The tests use a few functions; an error in the order of the cached values or
  in an entry of a table shows only for some numbers of points and degrees.''',
  ['numerics/quadrature_body.hpp', 'numerics/fast_fourier_transform_body.hpp',
   'numerics/finite_difference_body.hpp', 'numerics/чебышёв_lobatto_body.hpp'],
  [('cache in bit-reversed order', 'numerics/quadrature_body.hpp: '
    'FillClenshawCurtisCache'),
   ('butterflies', 'numerics/fast_fourier_transform_body.hpp')],
  [dict(harness=['C28_quadrature.cc'], protos=['numerics'], math=True,
        opt='-O1',
        rule='A case is a number of points, interval and degree, or a signal.')],
  over=('inputs',), technique=ENUM_TECH)

"""Properties of numerics."""
EXACT_TECH = ('bounded-exhaustive enumeration of the real code: every argument '
              'in stated contiguous blocks and grids of floating-point numbers '
              'is evaluated and compared with an exact or much more precise '
              'oracle')

S('C20', 'Cube roots are correctly rounded',
  '''The cube root of any double, positive or negative, normal or subnormal, is
  the floating-point number nearest to the real cube root.  Zeros, infinities
  and NaNs are their own cube roots, with their sign.''',
  '''Contiguous blocks of 2^23 doubles at 8 places (2^26 in the thorough tier);
  for each of the 2047 exponents, subnormals included, all the significands
  with one or two bits set and their neighbours, and 10^4 equidistributed ones;
  the neighbourhoods of cubes and of cubes of midpoints; both signs; the
  methods with and without FMA.''',
  '''Before its correction step the algorithm is wrong for a few numbers in a
  million; the tests sample randomly positive numbers near 1.''',
  ['numerics/cbrt.hpp', 'numerics/cbrt.cpp', 'numerics/double_precision_body.hpp'],
  [('rounding test', 'numerics/cbrt.cpp: CorrectionPossiblyNeeded'),
   ('correction', 'numerics/cbrt.cpp: CorrectLastBit, CbrtOneBit')],
  [dict(harness=['C20_cbrt.cc'], math=True, opt='-O2', repo=[],
        rule='A case is a floating-point number; all of them are distinct. '
             'The oracle is exact integer arithmetic.'),
   dict(harness=['C20_cbrt.cc'], math=True, opt='-O2', fma=True,
        rule='Same, in the configuration with FMA.',
        assumptions=['The processor has FMA; otherwise only the configuration '
                     'without FMA is checked.'])],
  over=('inputs',), technique=EXACT_TECH)

S('C21', 'Sines and cosines are correctly rounded',
  '''The library's sine and cosine of any finite double are the floating-point
  numbers nearest to the real sine and cosine, however large the argument.
  Computing both at once gives exactly the same values as computing them
  separately, and sine is exactly odd and cosine exactly even.''',
  '''Contiguous blocks of 2^18 doubles at 22 places covering all the argument
  reductions (2^21 in the thorough tier); the neighbourhoods of all the bounds
  of the accurate tables and of more than 10^5 multiples of pi/2 and pi/8, in
  all binades; all the exponents with many significands; with and without
  FMA.''',
  '''The slow paths are taken for one number in 2^17 or less; the tests sample
  randomly.  Each of the reductions has its own thresholds.''',
  ['numerics/sin_cos.cpp', 'numerics/sin_cos.hpp',
   'numerics/angle_reduction_body.hpp',
   'numerics/elementary_functions_body.hpp'],
  [('argument reductions', 'numerics/sin_cos.cpp: CodyWaiteReduction, '
    'BoldoDaumasLiReduction; angle_reduction_body.hpp: PayneHanekReduction'),
   ('rounding test', 'numerics/sin_cos.cpp: DetectDangerousRounding')],
  [dict(harness=['C21_sin_cos.cc'], math=True, opt='-O2',
        rule='A case is a floating-point number; all of them are distinct. '
             'The oracle is an exact fixed-point argument reduction followed by '
             'the 113-bit libquadmath; both roundings are accepted for results '
             'within 2^-104 of a tie.',
        assumptions=['libquadmath\'s sine and cosine are accurate to 2^-104 '
                     'between -pi/4 and pi/4. '
                     'The correctly rounded functions of CORE-MATH, an external '
                     'dependency that is not in this sandbox, are replaced by '
                     'libquadmath.']),
   dict(harness=['C21_sin_cos.cc'], math=True, opt='-O2', fma=True,
        rule='Same, in the configuration with FMA.')],
  over=('inputs',), technique=EXACT_TECH)

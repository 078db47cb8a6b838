"""Properties of geometry."""
S('C50', 'Linear and affine maps act as the matrices that define them',
  '''Identities, permutations, signatures, rotations (from an axis and an angle,
  from Euler or Cardano angles, from basis vectors, from quaternions; active, or
  defining either frame), orthogonal and conformal maps, homothecies and affine
  maps act on vectors, bivectors, trivectors, bilinear forms and points as their
  defining matrix does: bivectors are pseudovectors, and change sign with the
  handedness.  Inverses, products, forgetting to a more general kind of map, and
  serialization preserve this.''',
  '''All the constructors of each kind of map with angles and axes from small
  sets, small integer quaternions, all permutations and signatures, on a basis
  and a generic vector; all pairs of such maps between three frames, for each
  combination of handedness.''',
  '''The conventions (direction of the angles, order of the products, sign of
  the bivectors) matter for every combination of kinds and handedness; the tests
  sample a few maps.''',
  ['geometry/rotation_body.hpp', 'geometry/orthogonal_map_body.hpp',
   'geometry/permutation_body.hpp', 'geometry/signature_body.hpp',
   'geometry/conformal_map_body.hpp', 'geometry/homothecy_body.hpp',
   'geometry/affine_map_body.hpp', 'geometry/identity_body.hpp'],
  [('rotations', 'geometry/rotation_body.hpp: constructors, operator()'),
   ('handedness', 'geometry/orthogonal_map_body.hpp: MakeSignature')],
  dict(harness=['C50_linear_maps.cc'], protos=['geometry'], math=True, opt='-O1',
       rule='A case is a map, or a pair of maps to be multiplied; a state is a '
            'pair of kinds of maps.',
       assumptions=['Coordinates are compared within 4e-15 of the magnitude of '
                    'the operands.']),
  'The determinant of a conformal map only looks at the scale, in the code as '
  'in its tests: its sign is not checked.')

S('C51', 'Multivectors, forms, matrices and quaternions follow their algebra',
  '''The operations on vectors, bivectors and trivectors (vector space, fused
  operations, inner and wedge products, commutator, action of bivectors,
  dualities, norms, projections, oriented angles, spherical coordinates), on
  quaternions and on 3×3 matrices (products, transpose, determinant, trace, QR
  decomposition, solution of any nonsingular system) agree with their
  definitions, exactly when the result is exact.  Symmetric bilinear forms agree
  with their matrices, their anticommutator and its inverse with the definition
  of the former, and diagonalization yields sorted eigenvalues and an
  orthonormal direct basis in which the form has these eigenvalues.''',
  '''All the pairs of vectors with coordinates in [-2, 2] (thorough: [-3, 3]);
  all the 3×3 matrices with elements in [-1, 1] (thorough: 2 rows in [-2, 2]);
  all the symmetric forms with 5 values for each element, and 4 scales; all the
  pairs of quaternions in [-1, 1] (thorough: [-2, 2]) and [-2, 2].''',
  '''Signs, orders of operands, zeros, collinear vectors, repeated eigenvalues
  and pivots only matter for some operands, which the tests sample.''',
  ['geometry/grassmann_body.hpp', 'geometry/r3_element_body.hpp',
   'geometry/r3x3_matrix_body.hpp', 'geometry/quaternion_body.hpp',
   'geometry/symmetric_bilinear_form_body.hpp'],
  [('exterior algebra', 'geometry/grassmann_body.hpp'),
   ('eigensystems', 'geometry/symmetric_bilinear_form_body.hpp: Diagonalize'),
   ('systems', 'geometry/r3x3_matrix_body.hpp: Solve, QRDecomposition')],
  [dict(harness=['C51_algebra.cc'], protos=['geometry'], math=True, opt='-O1',
        rule='A case is a pair of operands, a matrix or a form.',
        assumptions=['Inexact results are compared with tolerances of a few '
                     'units in the last place of the operands.']),
   dict(harness=['C51_algebra.cc'], protos=['geometry'], math=True, opt='-O1',
        fma=True, flags=['-mavx'],
        rule='As above, with the AVX and FMA instructions.')])

S('C53', 'Perspectives project and hide as the geometry of space says',
  '''A perspective projects a point according to its coordinates in the frame of
  the camera, whatever the position, orientation and scale of that frame; the
  part of a segment that is behind the focal plane is exactly the part where the
  third coordinate is larger than the focal; angular and squared distances are
  the Euclidean ones.  A point is hidden by a sphere if and only if the segment
  from the camera to the point meets the ball, and hidden whenever the camera is
  in the ball; the visible parts of a segment, for one or more spheres, are
  exactly the points that are not hidden.  The points of the projective plane
  are equal if and only if their coordinates are proportional, and those at
  infinity have coordinates with the right signs.''',
  '''54 cameras, 3 focals, the points and segments of a 5x5x5 lattice; 4 cameras
  and 12 spheres (some of which contain the camera), all the segments between
  points of the lattice, including those that are degenerate or aligned with the
  camera, at 33 points; up to 3 spheres out of 9; all the pairs
  of projective points with 7 values of the coordinates, including zeroes of
  both signs.''',
  '''Whether a segment is cut depends on the relative positions of the camera,
  sphere, and ends, in a dozen cases with signs that matter; the tests have one
  example of each.''',
  ['geometry/perspective_body.hpp', 'geometry/rp2_point_body.hpp',
   'geometry/sphere_body.hpp'],
  [('intersection with the cone and sphere', 'geometry/perspective_body.hpp: '
    'VisibleSegments'),
   ('focal plane', 'geometry/perspective_body.hpp: SegmentBehindFocalPlane')],
  dict(harness=['C53_perspective.cc'], protos=['geometry'], math=True, opt='-O1',
       rule='A case is a camera, sphere and point; each is checked with all the '
            'segments from that point.'))

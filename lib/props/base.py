"""Properties of the sequential parts of base; decided by seq."""
SEQ_TECH = ('bounded-exhaustive explicit-state exploration of the real code: '
            'every sequence of operations and operands in stated bounds, '
            'compared step by step with a reference model')
SEQ_NOTE = ('Exhaustive for the stated alphabet of operations and operands, '
            'up to the stated depth; it says nothing of values outside of '
            'these.  The harness and the code under test are built from the '
            'working tree; crashes, failed checks and hangs are violations.')


def S(id, title, statement, forall, why, files, mechanism, spec, note='',
      over=('inputs', 'histories'), technique=None,
      **kwargs):
    for part in spec if isinstance(spec, list) else [spec]:
        part.setdefault('kind', 'seq')
    P(id, title, statement, list(over), forall, why, files, mechanism, spec,
      technique or SEQ_TECH, (SEQ_NOTE + ' ' + note).strip(), **kwargs)


S('C12', 'Binary-to-text encodings are exact and decode to the original bytes',
  '''Encoding any sequence of bytes in hexadecimal, base 64 (web-safe, without
  padding) or base 32768, and decoding the result, returns the original bytes;
  the announced lengths are exact, a terminating null is added iff requested,
  and nothing is written outside of the result.  Hexadecimal decoding ignores
  case, reads invalid digits as 0, and works in place.  Arrays of any integral
  type compare by their complete contents.''',
  '''All the byte strings of up to 2 bytes, all the single-bit patterns up to
  32 bytes, all byte values at each position up to 16 bytes, all strings over
  4 symbols up to 6 bytes; all pairs of characters; all relative placements of
  the input and output in memory for sizes up to 5.''',
  '''The tests use a few strings; the errors are at the boundaries of the bit
  groups, for particular byte values, or for particular overlaps.''',
  ['base/encoder.hpp', 'base/hexadecimal_body.hpp', 'base/base64_body.hpp',
   'base/base32768_body.hpp', 'base/array_body.hpp'],
  [('tables and bit shifts', 'base/hexadecimal_body.hpp, '
    'base/base32768_body.hpp: Encode, Decode'),
   ('deep comparison', 'base/array_body.hpp: operator==')],
  dict(harness=['C12_encoders.cc'], asan=True,
       rule='A case is an input and the operations applied to it; a case is '
            'non-trivial if its input differs from all the other ones.'))

S('C13', 'Disjoint sets form the expected partition; bit tricks are exact',
  '''After any sequence of unions and searches, two elements are found in the same
  subset if and only if they were united, directly or not; the properties of
  each subset result from merging these of all its elements, each exactly once;
  making singletons again starts a new partition.  FloorLog2, PowerOf2Le and
  BitReversedIncrement agree with their definitions, the latter wrapping around
  to 0.''',
  '''All the sequences of 5 (thorough: 6) unions (in both orders), searches and
  restarts over 5 elements, of 5 (thorough: 7) over 4 elements, of 4 (thorough:
  5) over 7; all the sequences of unions of adjacent subsets, in both orders, of
  8 (thorough: 9) elements, without intermediate searches, so that the trees are
  of height 3; all the orders of the unions of a balanced tournament over 16
  elements (height 4); all integers of up to 18 bits (thorough: 22) on that many bits; all
  the positive 63-bit integers that have few bits equal to 0 or 1.''',
  '''Paths are compressed and ranks updated depending on the history; a defect
  needs a particular sequence of unions and searches.''',
  ['base/disjoint_sets_body.hpp', 'base/bits_body.hpp'],
  [('ranks and path compression', 'base/disjoint_sets_body.hpp: Unite, Root')],
  dict(harness=['C13_partitions.cc'], math=True,
       rule='A case is a sequence of operations or an integer.'))

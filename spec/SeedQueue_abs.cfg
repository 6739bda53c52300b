SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 1
  Chunk = 1
  Design = "abs"
INVARIANT Once
INVARIANT OnlyNegative
INVARIANT Complete
INVARIANT Ordered1

SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 1
  Chunk = 1
  Design = "zero"
INVARIANT Once
INVARIANT OnlyNegative
INVARIANT Complete
INVARIANT Ordered1

SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 3
  Chunk = 1
  Design = "ok"
INVARIANT Once
INVARIANT OnlyNegative
INVARIANT Complete
INVARIANT Ordered1

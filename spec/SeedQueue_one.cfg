SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 1
  Chunk = 2
  Design = "ok"
INVARIANT Once
INVARIANT OnlyNegative
INVARIANT Complete
INVARIANT Ordered1
PROPERTY Terminates

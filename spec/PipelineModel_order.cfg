CONSTANTS
  N = 2
  MATCH = "order"
  LATE = FALSE
SPECIFICATION Spec
INVARIANTS Sane Right Complete FailsLoud Named


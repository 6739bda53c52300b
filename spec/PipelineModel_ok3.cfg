CONSTANTS
  N = 3
  MATCH = "id"
  LATE = FALSE
SPECIFICATION Spec
INVARIANTS Sane Right Complete FailsLoud Named


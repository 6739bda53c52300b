CONSTANTS
  N = 2
  MATCH = "id"
  LATE = TRUE
SPECIFICATION Spec
INVARIANTS Sane Right Complete FailsLoud Named


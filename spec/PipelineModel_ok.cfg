CONSTANTS
  N = 2
  MATCH = "id"
  LATE = FALSE
SPECIFICATION Spec
INVARIANTS Sane Right Complete FailsLoud Named
PROPERTY Ends

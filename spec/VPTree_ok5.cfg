SPECIFICATION Spec
CONSTANTS
  N = 5
  M = 2
  Metric = TRUE
  Variant = "ok"
INVARIANT Correct

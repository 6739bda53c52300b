SPECIFICATION Spec
CONSTANTS
  N = 4
  M = 2
  Metric = FALSE
  Variant = "ok"
INVARIANT Correct

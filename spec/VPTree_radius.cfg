SPECIFICATION Spec
CONSTANTS
  N = 4
  M = 2
  Metric = TRUE
  Variant = "radius"
INVARIANT Correct

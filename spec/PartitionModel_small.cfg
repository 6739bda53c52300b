SPECIFICATION Spec
CONSTANTS
  N = 5
  M = 1
  Depth = 2
  Variant = "small"
INVARIANTS Complete Halved Regions

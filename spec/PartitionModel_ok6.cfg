SPECIFICATION Spec
CONSTANTS
  N = 6
  M = 1
  Depth = 2
  Variant = "ok"
INVARIANTS Complete Halved Regions

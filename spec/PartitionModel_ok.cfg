SPECIFICATION Spec
CONSTANTS
  N = 5
  M = 2
  Depth = 2
  Variant = "ok"
INVARIANTS Complete Halved Regions

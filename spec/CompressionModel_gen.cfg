SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "ok"
  Emit = TRUE
INVARIANTS Complete Content Functional

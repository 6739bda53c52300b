SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Variant = "ok"
  Emit = FALSE
INVARIANTS Complete Content Functional

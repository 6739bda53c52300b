SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "drop"
  Emit = FALSE
INVARIANTS Complete Content Functional

SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "late"
  Emit = FALSE
INVARIANTS Complete Content Functional

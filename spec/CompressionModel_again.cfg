SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "again"
  Emit = FALSE
INVARIANTS Complete Content Functional

SPECIFICATION Spec
CONSTANTS
  Variant = "ok"
  Threads = {1, 2}
  MaxMsg = 3
  MaxOps = 4
  Emit = FALSE
INVARIANTS Retrieved Safe Sufficient

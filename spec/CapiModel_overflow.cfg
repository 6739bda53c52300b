SPECIFICATION Spec
CONSTANTS
  Variant = "overflow"
  Threads = {1, 2}
  MaxMsg = 3
  MaxOps = 3
  Emit = FALSE
INVARIANTS Safe

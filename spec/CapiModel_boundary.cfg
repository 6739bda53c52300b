SPECIFICATION Spec
CONSTANTS
  Variant = "boundary"
  Threads = {1, 2}
  MaxMsg = 3
  MaxOps = 3
  Emit = FALSE
INVARIANTS Retrieved

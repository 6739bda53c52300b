SPECIFICATION Spec
CONSTANTS
  Variant = "nonull"
  Threads = {1, 2}
  MaxMsg = 3
  MaxOps = 3
  Emit = FALSE
INVARIANTS Retrieved

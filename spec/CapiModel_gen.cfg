SPECIFICATION Spec
CONSTANTS
  Variant = "ok"
  Threads = {1, 2, 3}
  MaxMsg = 2
  MaxOps = 3
  Emit = TRUE

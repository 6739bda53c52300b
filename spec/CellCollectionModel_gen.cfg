SPECIFICATION Spec
CONSTANTS
  Variant = "ok"
  Capacity = 1
  MaxCells = 3
  NCollections = 2
  Values = {1, 2}
  Emit = TRUE
INVARIANTS Emitted

SPECIFICATION Spec
CONSTANTS
  Variant = "ok"
  Capacity = 1
  MaxCells = 2
  NCollections = 3
  Values = {1, 2}
  Emit = TRUE
INVARIANTS Emitted

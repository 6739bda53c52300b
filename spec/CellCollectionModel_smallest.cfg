SPECIFICATION Spec
CONSTANTS
  Variant = "smallest"
  Capacity = 1
  MaxCells = 3
  NCollections = 2
  Values = {1, 2}
  Emit = FALSE
INVARIANTS Largest

SPECIFICATION Spec
CONSTANTS
  Variant = "copied"
  Capacity = 1
  MaxCells = 3
  NCollections = 2
  Values = {1, 2}
  Emit = FALSE
INVARIANTS Once

SPECIFICATION Spec
CONSTANTS
  Variant = "counted"
  Capacity = 1
  MaxCells = 4
  NCollections = 3
  Values = {1, 2}
  Emit = FALSE
INVARIANTS RightMembers

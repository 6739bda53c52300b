SPECIFICATION Spec
CONSTANTS
  Variant = "ok"
  Capacity = 2
  MaxCells = 4
  NCollections = 3
  Values = {1, 2}
  Emit = FALSE
INVARIANTS RightMembers Once Largest

SPECIFICATION Spec
CONSTANTS
  Variant = "ok"
  Capacity = 1
  MaxCells = 3
  NCollections = 3
  Values = {1, 2}
  Emit = FALSE
INVARIANTS RightMembers Once Largest

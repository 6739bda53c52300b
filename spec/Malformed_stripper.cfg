SPECIFICATION Spec
CONSTANTS
  Format = "stripper"
  Variant = "ok"
  MaxRecords = 2
  MaxParts = 2
INVARIANTS Accepted Undamaged
CHECK_DEADLOCK FALSE

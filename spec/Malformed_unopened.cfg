SPECIFICATION Spec
CONSTANTS
  Format = "stripper"
  Variant = "unopened"
  MaxRecords = 2
  MaxParts = 2
INVARIANTS Accepted Undamaged
CHECK_DEADLOCK FALSE

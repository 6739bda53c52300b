SPECIFICATION Spec
CONSTANTS
  Format = "hepmc"
  Variant = "uncounted"
  MaxRecords = 2
  MaxParts = 2
INVARIANTS Accepted Undamaged
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NFiles = 2
  Records = 3
  Capacity = 4
  MaxFaults = 1
  Variant = "drop"
INVARIANTS Success Robust


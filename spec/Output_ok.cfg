SPECIFICATION Spec
CONSTANTS
  NFiles = 3
  Records = 8
  Capacity = 6
  MaxFaults = 6
  Variant = "ok"
INVARIANTS Success Robust
PROPERTY Ends

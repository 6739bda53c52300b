CONSTANTS
  N = 1
  M = 2
  RULE = "closed"
SPECIFICATION Spec
INVARIANTS Unbiased AllClear SumKept NotSmall Ratio Trivial Order

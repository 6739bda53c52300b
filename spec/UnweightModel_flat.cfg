CONSTANTS
  N = 1
  M = 2
  RULE = "flat"
SPECIFICATION Spec
INVARIANTS Unbiased AllClear SumKept NotSmall Ratio Trivial Order

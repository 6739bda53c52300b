CONSTANTS
  N = 3
  M = 3
  RULE = "ok"
SPECIFICATION Spec
INVARIANTS Unbiased AllClear SumKept NotSmall Ratio Trivial Order

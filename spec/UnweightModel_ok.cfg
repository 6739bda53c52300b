CONSTANTS
  N = 3
  M = 2
  RULE = "ok"
SPECIFICATION Spec
INVARIANTS Unbiased AllClear SumKept NotSmall Ratio Trivial Order

SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 1
  Values <- V2
  Scale = 20736
  Unlimited = TRUE
  Validate = "ok"
INVARIANT Exact
INVARIANT Conserved
INVARIANT AtMostOnce
INVARIANT NoNegativeLeft
INVARIANT OneThreadMinimal
INVARIANT CellsNonNegative

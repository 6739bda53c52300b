SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  Values <- V7
  Scale = 216
  Unlimited = TRUE
  Validate = "none"
INVARIANT Exact
INVARIANT Conserved
INVARIANT AtMostOnce
INVARIANT NoNegativeLeft
INVARIANT OneThreadMinimal


SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 3
  Values <- V4
  Scale = 216
  Unlimited = FALSE
  Validate = "ok"
INVARIANT Exact
INVARIANT Conserved
INVARIANT AtMostOnce
INVARIANT NoNegativeLeft
INVARIANT OneThreadMinimal
PROPERTY Terminates

SPECIFICATION Spec
CONSTANTS
  N = 3
  Samples <- W3
  Scale = 216
  OnlyBad = FALSE
  Share = 1
INVARIANT PrintCase

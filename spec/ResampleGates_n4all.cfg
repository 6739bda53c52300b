SPECIFICATION Spec
CONSTANTS
  N = 4
  Samples <- W4
  Scale = 20736
  OnlyBad = TRUE
  Share = 1
INVARIANT PrintCase

SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  Values <- V4
  Scale = 216
  Unlimited = FALSE
  Validate = "none"
INVARIANT OneAtATimeMinimal

SPECIFICATION Spec
CONSTANTS
  N = 3
  Cells = 2
  Design = "unlockedsum"

INVARIANT Conserved

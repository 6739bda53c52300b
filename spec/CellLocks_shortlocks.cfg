SPECIFICATION Spec
CONSTANTS
  N = 3
  Cells = 2
  Design = "shortlocks"
INVARIANT Atomic
INVARIANT Conserved

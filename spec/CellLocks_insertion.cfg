SPECIFICATION Spec
CONSTANTS
  N = 3
  Cells = 2
  Design = "insertion"
INVARIANT Atomic
INVARIANT Conserved

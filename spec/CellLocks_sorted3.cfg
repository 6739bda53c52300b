SPECIFICATION Spec
CONSTANTS
  N = 3
  Cells = 3
  Design = "sorted"
INVARIANT Atomic
INVARIANT Conserved

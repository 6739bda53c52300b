SPECIFICATION Spec
CONSTANTS
  N = 3
  Cells = 2
  Design = "sorted"
INVARIANT Atomic
INVARIANT Conserved
PROPERTY Terminates

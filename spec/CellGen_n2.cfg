SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxW = 3
  MaxD = 2

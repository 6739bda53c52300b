SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxW = 2
  MaxD = 2

SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxW = 1
  MaxD = 1

CONSTANTS
  N = 3
  MATCH = "id"
  LATE = FALSE
SPECIFICATION GSpec

SPECIFICATION GSpec
CONSTANTS
  N = 4
  M = 3
  Metric = TRUE
  Variant = "ok"

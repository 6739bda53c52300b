SPECIFICATION GSpec
CONSTANTS
  N = 4
  M = 2
  Metric = TRUE
  Variant = "ok"

SPECIFICATION GSpec
CONSTANTS
  N = 3
  M = 3
  Metric = TRUE
  Variant = "ok"

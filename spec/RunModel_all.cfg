CONSTANTS Limits = {1, 2, 1000} Strategies = {"any", "most_negative", "least_negative"} MinWeights = {0} Variant = "as specified"
 Positions <- QuickPositions
 Weights <- AllWeights
SPECIFICATION Spec
INVARIANTS AsPredicted SumsKept NoneNegative Untouched OutputSum OthersUntouched SameCells SameCellsOut
CHECK_DEADLOCK FALSE

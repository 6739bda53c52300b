CONSTANTS Limits = {1, 2, 1000} Strategies = {"any", "most_negative"} MinWeights = {0} Variant = "position"
 Positions <- QuickPositions
 Weights <- FewWeights
SPECIFICATION Spec
INVARIANTS AsPredicted SumsKept NoneNegative Untouched OutputSum OthersUntouched SameCells SameCellsOut
CHECK_DEADLOCK FALSE

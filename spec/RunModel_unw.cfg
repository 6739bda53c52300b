CONSTANTS Limits = {1, 1000} Strategies = {"most_negative"} MinWeights = {150} Variant = "as specified"
 Positions <- QuickPositions
 Weights <- FewWeights
SPECIFICATION Spec
INVARIANTS AsPredicted SumsKept NoneNegative Untouched OutputSumUnweighted OthersUntouched SameCells SameCellsOut
CHECK_DEADLOCK FALSE

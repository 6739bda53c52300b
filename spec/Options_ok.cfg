CONSTANT Variant = "as specified"
SPECIFICATION Spec
INVARIANT AsIfGiven
CHECK_DEADLOCK FALSE

CONSTANT Variant = "last"
SPECIFICATION Spec
INVARIANT AsIfGiven
CHECK_DEADLOCK FALSE

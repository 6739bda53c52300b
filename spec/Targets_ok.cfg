CONSTANT Variant = "as specified"
SPECIFICATION Spec
INVARIANTS InputsIntact AllWritten NothingRefusedForFun
CHECK_DEADLOCK FALSE

CONSTANT Variant = "by name"
SPECIFICATION Spec
INVARIANTS InputsIntact AllWritten NothingRefusedForFun
CHECK_DEADLOCK FALSE

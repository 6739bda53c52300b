SPECIFICATION Spec
CONSTANTS MaxOps = 5
 MaxFiles = 3
 MaxEvents = 2
 RULE = "hint"
INVARIANTS Refines HintOk OutputsOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = FALSE
INVARIANTS ReadsBack CopyOk WellFormed
PROPERTY Frame
CHECK_DEADLOCK FALSE

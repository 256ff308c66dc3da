SPECIFICATION Spec
CONSTANTS Depth = 2
 Emit = FALSE
INVARIANTS ReadsBack CopyOk WellFormed
PROPERTY Frame
CHECK_DEADLOCK FALSE

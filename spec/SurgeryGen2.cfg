SPECIFICATION Spec
CONSTANTS Depth = 2
 Emit = TRUE
INVARIANT PrintHist
CHECK_DEADLOCK FALSE

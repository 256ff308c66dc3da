SPECIFICATION Spec
CONSTANTS Depth = 4
 Emit = TRUE
INVARIANT PrintHist
CHECK_DEADLOCK FALSE

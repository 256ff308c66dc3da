SPECIFICATION Spec
CONSTANTS Depth = 6
 Emit = TRUE
INVARIANT PrintHist
CHECK_DEADLOCK FALSE

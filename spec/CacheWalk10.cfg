SPECIFICATION Spec
CONSTANTS Policy = "recompute"
 Depth = 10
 Emit = TRUE
INVARIANT PrintHist

CHECK_DEADLOCK FALSE

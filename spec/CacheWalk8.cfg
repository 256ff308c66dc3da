SPECIFICATION Spec
CONSTANTS Policy = "recompute"
 Depth = 8
 Emit = TRUE
INVARIANT PrintHist

CHECK_DEADLOCK FALSE

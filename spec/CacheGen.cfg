SPECIFICATION Spec
CONSTANTS Policy = "recompute"
 Depth = 3
 Emit = TRUE
INVARIANT PrintHist

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Policy = "recompute"
 Depth = 7
 Emit = FALSE
INVARIANT Fresh
VIEW View
CHECK_DEADLOCK FALSE

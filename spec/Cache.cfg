SPECIFICATION Spec
CONSTANTS Policy = "recompute"
 Depth = 5
 Emit = FALSE
INVARIANT Fresh
VIEW View
CHECK_DEADLOCK FALSE

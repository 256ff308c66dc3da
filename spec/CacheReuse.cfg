SPECIFICATION Spec
CONSTANTS Policy = "reuse"
 Depth = 4
 Emit = FALSE
INVARIANT Fresh
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Policy = "reuse-input"
 Depth = 4
 Emit = FALSE
INVARIANT Fresh
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Policy = "right"
 Size = 3
INVARIANT Refines
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Policy = "right"
 Size = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Policy = "no-offset"
 Size = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE

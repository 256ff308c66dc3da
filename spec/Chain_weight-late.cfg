SPECIFICATION Spec
CONSTANTS Policy = "weight-late"
 Size = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Policy = "diag-late"
 Size = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE

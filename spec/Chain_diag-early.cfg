SPECIFICATION Spec
CONSTANTS Policy = "diag-early"
 Size = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE

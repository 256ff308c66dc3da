SPECIFICATION Spec
CONSTANTS Policy = "add-early"
 Size = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE

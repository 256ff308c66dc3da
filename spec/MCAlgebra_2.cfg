SPECIFICATION Spec
CONSTANTS Size = 2
INVARIANTS NoneIsIdentity FlagsAgree DiagBackpropExact DiagBackpropNonNeg Grouping Slicing Skipping
CHECK_DEADLOCK FALSE

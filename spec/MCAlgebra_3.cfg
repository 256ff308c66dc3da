SPECIFICATION Spec
CONSTANTS Size = 3
INVARIANTS NoneIsIdentity FlagsAgree DiagBackpropExact DiagBackpropNonNeg Grouping Slicing Skipping
CHECK_DEADLOCK FALSE

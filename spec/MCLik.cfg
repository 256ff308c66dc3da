SPECIFICATION Spec
CONSTANTS N = 3
 K = 2
INVARIANTS Dist Bin Odds HessOk ResidOk TwoIsBinary ShiftOk FarOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Family = "lin"
INVARIANTS InputDerivative WeightDerivative Shapes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Family = "up"
INVARIANTS InputDerivative WeightDerivative Shapes
CHECK_DEADLOCK FALSE

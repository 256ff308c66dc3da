SPECIFICATION Spec
CONSTANTS Family = "conv"
INVARIANTS InputDerivative WeightDerivative Shapes
CHECK_DEADLOCK FALSE

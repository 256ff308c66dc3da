SPECIFICATION Spec
CONSTANTS Family = "pool"
INVARIANTS InputDerivative WeightDerivative Shapes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Family = "net2"
INVARIANTS InputDerivative WeightDerivative Shapes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Family = "net3"
INVARIANTS InputDerivative WeightDerivative Shapes
CHECK_DEADLOCK FALSE

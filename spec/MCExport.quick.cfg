SPECIFICATION Spec
CONSTANTS MaxFaces = 3  Sizes <- SomeSizes
INVARIANTS Resolved Length Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxFaces = 4  Sizes <- SomeSizes
INVARIANTS Resolved Length Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS W = 3  H = 3  MaxV = 8  Clip = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE

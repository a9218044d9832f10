SPECIFICATION Spec
CONSTANTS W = 3  H = 2  MaxV = 7  Clip = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS W = 2  H = 2  MaxV = 7  Clip = TRUE
INVARIANTS AreaKept Progress Sound Complete Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANT Size = 2
INVARIANTS Meaning Orientation Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANT Size = 3
INVARIANTS Meaning Orientation Emit
CHECK_DEADLOCK FALSE

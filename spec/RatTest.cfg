INIT Init
NEXT Next
INVARIANTS Agree TrigOk

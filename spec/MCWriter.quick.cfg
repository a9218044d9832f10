SPECIFICATION Spec
CONSTANTS MaxRecords = 3  Sizes = {0, 1, 3}  Bufs = {0, 2, 4}  MaxRoom = 8
INVARIANTS Ledger Honest Willing Noticed Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE

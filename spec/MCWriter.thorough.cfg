SPECIFICATION Spec
CONSTANTS MaxRecords = 4  Sizes = {0, 1, 2, 5}  Bufs = {0, 1, 3, 8}  MaxRoom = 14
INVARIANTS Ledger Honest Willing Noticed Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 3  MaxM = 4
INVARIANTS Sound Complete Scenario
CHECK_DEADLOCK FALSE

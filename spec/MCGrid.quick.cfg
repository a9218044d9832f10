SPECIFICATION Spec
CONSTANTS MaxN = 3  MaxM = 2
INVARIANTS Sound Complete Scenario
CHECK_DEADLOCK FALSE

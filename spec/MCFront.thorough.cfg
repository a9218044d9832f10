SPECIFICATION Spec
CONSTANTS Regions = {1, 2, 3, 4, 5, 6}  Extra = 1
INVARIANTS Balanced Oriented Chain AreaKept NoEdgeTwice NeverStuck Finished
CHECK_DEADLOCK FALSE

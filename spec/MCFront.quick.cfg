SPECIFICATION Spec
CONSTANTS Regions = {1, 2, 5}  Extra = 0
INVARIANTS Balanced Oriented Chain AreaKept NoEdgeTwice NeverStuck Finished
CHECK_DEADLOCK FALSE

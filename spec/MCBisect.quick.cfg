SPECIFICATION Spec
CONSTANT Size = 8
INVARIANTS Tiled Complete Minimal
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Size = 16
INVARIANTS Tiled Complete Minimal
CHECK_DEADLOCK FALSE

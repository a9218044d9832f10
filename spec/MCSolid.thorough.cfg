SPECIFICATION Spec
CONSTANT Kinds = {0, 1}
INVARIANTS Walks ClosesUp Emit

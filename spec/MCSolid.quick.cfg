SPECIFICATION Spec
CONSTANT Kinds = {0}
INVARIANTS Walks ClosesUp Emit

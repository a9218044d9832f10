SPECIFICATION Spec
CONSTANTS
  MaxEdges = 3
  Kinds = {0, 1, 2, 3}
INVARIANTS IsBoundary Grows Emit

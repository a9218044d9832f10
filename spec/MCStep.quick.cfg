SPECIFICATION Spec
CONSTANTS
  MaxEdges = 2
  Kinds = {0, 1, 2, 3}
INVARIANTS IsBoundary Grows Emit

SPECIFICATION Spec
CONSTANTS
  Points = {0, 1, 2, 3, 10, 11}
  MaxEdges = 4
INVARIANTS Separate Closed OnlyDuplicates Visits Emit

SPECIFICATION Spec
CONSTANTS
  Points = {0, 1, 2, 3, 10, 11, 12}
  MaxEdges = 6
INVARIANTS Separate Closed OnlyDuplicates Visits Emit

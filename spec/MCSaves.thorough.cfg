SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
INVARIANTS Right Apart Left
PROPERTY Ends

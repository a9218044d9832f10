SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
INVARIANTS Right Apart Left
PROPERTY Ends

SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2, 3}
  Contents = {1, 2}
  Steps = 6
INVARIANTS Sound Complete Emit

SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2}
  Contents = {1, 2}
  Steps = 5
INVARIANTS Sound Complete Emit

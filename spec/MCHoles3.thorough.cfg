SPECIFICATION Spec
CONSTANTS Outers = {3, 4}  Sites = {1, 3, 6}  MaxHoles = 3
INVARIANTS HoleAreas Region Emit
CHECK_DEADLOCK FALSE

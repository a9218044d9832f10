SPECIFICATION Spec
CONSTANTS Outers = {1, 2, 3, 4}  Sites = {1, 3, 5, 6}  MaxHoles = 2
INVARIANTS HoleAreas Region Emit
CHECK_DEADLOCK FALSE

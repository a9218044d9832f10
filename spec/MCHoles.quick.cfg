SPECIFICATION Spec
CONSTANTS Outers = {2, 3}  Sites = {1, 3, 6}  MaxHoles = 2
INVARIANTS HoleAreas Region Emit
CHECK_DEADLOCK FALSE

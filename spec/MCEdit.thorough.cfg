INIT Init
NEXT Next
CONSTANTS Max = 2  MaxLen = 6  MaxP = 2  MaxOps = 3  Emit = TRUE
INVARIANTS CountsFit KnotsSorted CurveKept EmitScenario

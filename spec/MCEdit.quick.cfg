INIT Init
NEXT Next
CONSTANTS Max = 2  MaxLen = 6  MaxP = 2  MaxOps = 2  Emit = TRUE
INVARIANTS CountsFit KnotsSorted CurveKept EmitScenario

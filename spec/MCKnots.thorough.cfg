INIT Init
NEXT Next
CONSTANTS Max = 4  MaxLen = 10  MaxP = 4  Emit = TRUE
INVARIANTS PartitionOfUnity DeBoorAgrees DerivativeTheorem InsertionKeepsCurve EmitScenario

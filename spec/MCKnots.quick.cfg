INIT Init
NEXT Next
CONSTANTS Max = 3  MaxLen = 8  MaxP = 3  Emit = TRUE
INVARIANTS PartitionOfUnity DeBoorAgrees DerivativeTheorem InsertionKeepsCurve EmitScenario

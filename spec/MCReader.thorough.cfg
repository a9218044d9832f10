SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
  Lines <- AllLines
INVARIANTS ErrorIff RowsAre Emit

SPECIFICATION Spec
CONSTANTS
  MaxLines = 2
  Lines <- AllLines
INVARIANTS ErrorIff RowsAre Emit

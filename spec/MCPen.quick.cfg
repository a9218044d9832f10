SPECIFICATION Spec
CONSTANTS
  MaxSegments = 2
  Kinds <- KindSet
  Strokes = {1, 3}
INVARIANTS Drawn UpToPen Complete Emit

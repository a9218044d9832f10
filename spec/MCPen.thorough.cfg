SPECIFICATION Spec
CONSTANTS
  MaxSegments = 3
  Kinds <- KindSet
  Strokes = {1, 3}
INVARIANTS Drawn UpToPen Complete Emit

SPECIFICATION Spec
CONSTANTS
  Depth = 24
  Codes = {0, 1, 33, 37, 61, 64}
CONSTRAINT EmitHist
INVARIANT SolvesTheCallersProgram
CHECK_DEADLOCK FALSE

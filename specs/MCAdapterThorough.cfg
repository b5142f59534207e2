SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Codes = {0, 37, 61}
CONSTRAINT EmitHist
INVARIANT SolvesTheCallersProgram
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Codes = {0, 61}
CONSTRAINT EmitHist
INVARIANT SolvesTheCallersProgram
CHECK_DEADLOCK FALSE

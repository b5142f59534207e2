SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  MaxPts = 5
INVARIANTS HullOK EmitPts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  MaxPts = 6
INVARIANTS HullOK EmitPts
CHECK_DEADLOCK FALSE

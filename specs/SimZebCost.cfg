SPECIFICATION Spec
CONSTANTS
  Depth = 90
  Emit = TRUE
  Focus = "cost"
INVARIANTS EmitHist TableInv WorldInv TiltInv SegmentInv PlanInv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 90
  Emit = TRUE
INVARIANTS EmitHist PlanInv TableInv TrackInv AdvanceInv SegmentInv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Walk = FALSE
  Ns = {2, 3, 5, 8}
  Ks = {1, 2, 3, 4}
  StepMults = {2, 3, 4, 5}
  DSMults = {1, 2, 3}
  Random = TRUE
  Depth = 160
  Emit = TRUE
INVARIANTS EmitHist TypeOK PreviewInv HeightInv
PROPERTIES PhaseOrder SupportFixed TouchDown
CHECK_DEADLOCK FALSE

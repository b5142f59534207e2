SPECIFICATION Spec
CONSTANTS
  Walk = TRUE
  Ns = {2, 3, 4, 6}
  Ks = {1, 2, 4}
  StepMults = {2, 3, 4, 5}
  DSMults = {1, 2, 3}
  Random = TRUE
  Depth = 120
  Emit = TRUE
INVARIANTS EmitHist TypeOK PreviewInv HeightInv
PROPERTIES PhaseOrder SupportFixed TouchDown
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Walk = FALSE
  Ns = {3, 4}
  Ks = {1, 2}
  StepMults = {2, 3}
  DSMults = {1, 3}
  Random = FALSE
  Depth = 0
  Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitEdge
CONSTRAINT EmitInit
INVARIANTS TypeOK PreviewInv HeightInv
PROPERTIES PhaseOrder SupportFixed TouchDown
CHECK_DEADLOCK FALSE

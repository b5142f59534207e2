SPECIFICATION Spec
CONSTANTS
  Kinds = {"lip", "base", "nodyn", "tools"}
  Ns = {1, 2, 4}
  Ts = {4, 6}
  Hs <- HsC
  Gs <- GsC
  Ms = {1, 3}
  Random = FALSE
  Depth = 0
VIEW View
ACTION_CONSTRAINT EmitEdge
CONSTRAINT EmitInit
INVARIANTS SuperpositionInv RestInv RhoInv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Kinds = {"lip", "base", "nodyn", "tools"}
  Ns = {1, 2, 3, 5, 7}
  Ts = {1, 2, 3, 4, 6, 8}
  Hs <- HsW
  Gs <- GsW
  Ms = {1, 2, 5, 8}
  Random = TRUE
  Depth = 40
CONSTRAINT EmitHist
INVARIANTS SuperpositionInv RestInv RhoInv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Slots = {1}
  Forgets = {"ineq", "eq", "lower", "upper", "bounds", "symineq", "symeq"}
  InPlace = {}
  CopyCaches = TRUE
  PresetsVertices = TRUE
  MaxLen = 4
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE

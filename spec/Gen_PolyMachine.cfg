SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Forgets = {"ineq", "eq", "lower", "upper", "bounds", "symineq", "symeq"}
  InPlace = {}
  CopyCaches = TRUE
  PresetsVertices = TRUE
  MaxLen = 9
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE

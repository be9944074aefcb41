SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Forgets = {"ineq", "eq", "lower", "upper", "bounds", "symineq", "symeq"}
  InPlace = {}
  CopyCaches = TRUE
  PresetsVertices = TRUE
  MaxLen = 6
  Gen = FALSE
INVARIANT NeverStale
PROPERTY Frame
VIEW DesignView
CHECK_DEADLOCK FALSE

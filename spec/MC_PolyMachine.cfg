SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Forgets = {"ineq", "eq", "lower", "upper", "bounds", "symineq", "symeq"}
  InPlace = {}
  CopyCaches = TRUE
  PresetsVertices = TRUE
  MaxLen = 5
  Gen = FALSE
INVARIANT NeverStale
PROPERTY Frame
VIEW DesignView
CHECK_DEADLOCK FALSE

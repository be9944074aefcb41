SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Forgets = {"ineq", "lower", "upper", "bounds", "symineq", "symeq"}
  InPlace = {}
  CopyCaches = TRUE
  PresetsVertices = TRUE
  MaxLen = 4
  Gen = FALSE
INVARIANT NeverStale
VIEW DesignView
CHECK_DEADLOCK FALSE

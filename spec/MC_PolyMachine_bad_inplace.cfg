SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Forgets = {"ineq", "eq", "lower", "upper", "bounds", "symineq", "symeq"}
  InPlace = {"normalize"}
  CopyCaches = TRUE
  PresetsVertices = TRUE
  MaxLen = 4
  Gen = FALSE
PROPERTY Frame
VIEW DesignView
CHECK_DEADLOCK FALSE

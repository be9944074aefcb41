SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 2
  Remember = "line"
INVARIANTS Exact

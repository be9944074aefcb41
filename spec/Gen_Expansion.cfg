SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 2
  Remember = "direction"
INVARIANTS Emit

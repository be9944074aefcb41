SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 4
  Bounds <- DefBounds
  AgainstAll = TRUE
  Weak = FALSE
INVARIANTS Kept

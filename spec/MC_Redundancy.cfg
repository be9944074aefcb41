SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 4
  Bounds <- DefBounds
  AgainstAll = FALSE
  Weak = FALSE
INVARIANTS Kept Minimal

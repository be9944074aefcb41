SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Arrays = {1, 2}
  Values = {1, 2, 3}
  Questions = {1, 2}
  MaxLen = 14
  Memory = "none"
  Gen = TRUE
INVARIANTS Emit

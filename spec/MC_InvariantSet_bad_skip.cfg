SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  States = {1, 2, 3, 4}
  Limit = 1
  Stop = "skip"
INVARIANTS Admissible

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Cells = {1, 2, 3, 4}
  Start = "inside"
  OnInfeasible = "next"
  Discard = TRUE
  Guess = "trust"
INVARIANTS Once

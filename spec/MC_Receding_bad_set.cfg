SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  X = {1, 2, 3}
  U = {1, 2}
  N = 2
  MaxCost = 1
  TermSets <- DefSets
  Stage <- OneStage
  Extra = {1}
  TerminalInvariant = FALSE
  TerminalCost = TRUE
  Apply = "first"
INVARIANTS RecursivelyFeasible

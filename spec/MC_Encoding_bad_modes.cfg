SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Coef <- DefCoef
  Off <- DefOff
  Ends <- DefEnds
  XS <- DefXS
  US <- DefUS
  Modes = {1, 2}
  Cap = 3
  Bounds = "each"
  OneMode = FALSE
INVARIANTS Sound

SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS EmitHist
CHECK_DEADLOCK FALSE

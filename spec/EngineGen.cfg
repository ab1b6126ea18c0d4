SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS EmitHist
CHECK_DEADLOCK FALSE

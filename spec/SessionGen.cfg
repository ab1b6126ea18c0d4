SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS HeldIsRight EmitHist
PROPERTY ContentKept
CHECK_DEADLOCK FALSE

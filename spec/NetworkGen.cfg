SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS TablesNeedStates LatestWins EmitHist
PROPERTY RefusalsTouchNothing
CHECK_DEADLOCK FALSE

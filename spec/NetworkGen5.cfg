SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Emit = TRUE
INVARIANTS TablesNeedStates LatestWins EmitHist
PROPERTY RefusalsTouchNothing
CHECK_DEADLOCK FALSE

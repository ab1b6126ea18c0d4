SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS EveryEdgeHasOrigin OneEdgeEach EndsAreNodes PartitionByOrigin EmitHist
PROPERTY OthersKept
CHECK_DEADLOCK FALSE

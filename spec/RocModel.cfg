SPECIFICATION Spec
CONSTANTS
  N = 5
  Top = 3
INVARIANTS IsRank Ends Bounded
PROPERTY Climbs
CHECK_DEADLOCK FALSE

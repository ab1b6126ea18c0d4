SPECIFICATION Spec
CONSTANTS
  N = 6
  Top = 3
INVARIANTS IsRank Ends Bounded
PROPERTY Climbs
CHECK_DEADLOCK FALSE

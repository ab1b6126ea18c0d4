SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Emit = FALSE
VIEW DoView
INVARIANTS WellFormed OnlyDescendants AsAsked SeeingIsDoing NothingInForce
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Widths <- WWide
INVARIANTS EveryNodeAsItsColumn NodesInGroups PlacesKept
CHECK_DEADLOCK FALSE

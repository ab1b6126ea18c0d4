SPECIFICATION Spec
CONSTANT Widths <- W
INVARIANTS EveryNodeAsItsColumn NodesInGroups PlacesKept
CHECK_DEADLOCK FALSE

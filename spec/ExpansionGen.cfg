SPECIFICATION Spec
CONSTANT Widths <- W
INVARIANTS EveryNodeAsItsColumn NodesInGroups PlacesKept EmitRequest
CHECK_DEADLOCK FALSE

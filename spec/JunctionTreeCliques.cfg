SPECIFICATION Spec
CONSTANTS
  N = 5
  Seeds = {1}
  Observe = FALSE
INVARIANTS TriangulationIsChordal ClustersAreTheCliques FamiliesCovered OnlyNeededEdges
CONSTRAINT ClustersOnly
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 4
  Seeds = {1}
  Observe = TRUE
INVARIANTS TriangulationIsChordal ClustersAreTheCliques FamiliesCovered OnlyNeededEdges IsForest RunningIntersection Represents CalibratedAtTheEnd StaysCalibrated

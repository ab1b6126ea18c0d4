SPECIFICATION Spec
CONSTANTS
  N = 3
  Seeds = {1, 2, 3}
  Observe = TRUE
INVARIANTS TriangulationIsChordal ClustersAreTheCliques FamiliesCovered OnlyNeededEdges IsForest RunningIntersection Represents CalibratedAtTheEnd StaysCalibrated

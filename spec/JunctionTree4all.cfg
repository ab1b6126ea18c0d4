SPECIFICATION Spec
CONSTANTS
  N = 4
  Seeds = {1, 2, 3, 4}
  Observe = TRUE
INVARIANTS TriangulationIsChordal ClustersAreTheCliques FamiliesCovered OnlyNeededEdges IsForest RunningIntersection Represents CalibratedAtTheEnd StaysCalibrated

SPECIFICATION Spec
CONSTANTS
  Top = 5
  Size = 5
  Emit = TRUE
VIEW View
INVARIANTS PointsInOrder Monotone InRange Counted HalfOpen FewestAndMost EvenShares EvenWidths FewOutliers EmitInput
CHECK_DEADLOCK FALSE

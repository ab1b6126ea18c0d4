SPECIFICATION Spec
CONSTANTS
  Top = 3
  Size = 4
  Emit = TRUE
VIEW View
INVARIANTS PointsInOrder Monotone InRange Counted HalfOpen FewestAndMost EvenShares EvenWidths FewOutliers EmitInput
CHECK_DEADLOCK FALSE

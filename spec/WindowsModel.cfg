SPECIFICATION Spec
CONSTANTS
  Span1 = {0, 1, 2, 3, 4}
  Span2 = {3, 4, 5, 6}
  MaxP = 3
  Emit = TRUE
INVARIANTS AsDefined Unmixed NoMore EmitInput
CHECK_DEADLOCK FALSE

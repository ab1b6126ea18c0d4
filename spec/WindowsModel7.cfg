SPECIFICATION Spec
CONSTANTS
  Span1 = {0, 1, 2, 3, 4, 5, 6}
  Span2 = {4, 5, 6, 7, 8}
  MaxP = 4
  Emit = TRUE
INVARIANTS AsDefined Unmixed NoMore EmitInput
CHECK_DEADLOCK FALSE

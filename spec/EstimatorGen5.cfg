SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Emit = TRUE
INVARIANTS AnswersFromLatest NoAnswerAfterRefusal EmitHist
PROPERTY OthersKept
CHECK_DEADLOCK FALSE

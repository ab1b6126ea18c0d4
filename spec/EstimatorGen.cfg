SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS AnswersFromLatest NoAnswerAfterRefusal EmitHist
PROPERTY OthersKept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  St0 <- TSt0
  Judge <- TJudge
  StNext <- TStNext
CHECK_DEADLOCK FALSE

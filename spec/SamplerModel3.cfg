SPECIFICATION Spec
CONSTANTS
  Mode = "joint"
  Domains <- LargeDomains
  Seeds = {0, 1, 2}
INVARIANTS StaysPossible EvidenceKept ChainRule TicketsFit
CHECK_DEADLOCK FALSE

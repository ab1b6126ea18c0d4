SPECIFICATION Spec
CONSTANTS
  Mode = "joint"
  Domains <- SmallDomains
  Seeds = {0}
INVARIANTS StaysPossible EvidenceKept ChainRule TicketsFit
CHECK_DEADLOCK FALSE

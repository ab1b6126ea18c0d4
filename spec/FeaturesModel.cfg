SPECIFICATION Spec
CONSTANTS
  Size = 3
  MaxCard = 3
  Emit = TRUE
INVARIANTS OneToOne AsManyAsColumns Partition Neighbours NamedInOrder ByType CompletionKeeps EmitSchema
PROPERTIES NamesStay OrderKept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS W = 2
INVARIANTS Described DagUntouched Laws
PROPERTY Terminates
CHECK_DEADLOCK FALSE

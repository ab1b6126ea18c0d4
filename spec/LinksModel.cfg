SPECIFICATION Spec
CONSTANT Pace = 250
INVARIANTS Symmetric OddsRight Adds TwoClasses ThreeClasses OrderedSums OrderedAtZero OrderedShifts
PROPERTY Rises
CHECK_DEADLOCK FALSE

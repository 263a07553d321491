SPECIFICATION Spec
CONSTANTS
 Parts = {1, 2}
 MaxRecs = 3
INVARIANTS Combined Laws
CHECK_DEADLOCK FALSE

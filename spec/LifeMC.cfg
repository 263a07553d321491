SPECIFICATION Spec
CONSTANTS NCH = 2 NT = 2 MAXLOG = 5
INVARIANT Inv
PROPERTIES FinalWrites Silent
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

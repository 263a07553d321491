SPECIFICATION Spec
CONSTANTS MaxRecs = 3
INVARIANTS AddsUp AllTypes
CHECK_DEADLOCK FALSE

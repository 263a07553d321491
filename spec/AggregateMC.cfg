SPECIFICATION Spec
CONSTANT MaxSnaps = 3
INVARIANTS Conserved OneRowPerKey
CHECK_DEADLOCK FALSE

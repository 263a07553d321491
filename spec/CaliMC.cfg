SPECIFICATION Spec
INVARIANTS Same Once Union Intact
CHECK_DEADLOCK FALSE

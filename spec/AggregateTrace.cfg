SPECIFICATION ATSpec
INVARIANT TraceInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
INVARIANT TraceInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

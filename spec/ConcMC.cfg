SPECIFICATION MSpec
CONSTANT Threads = 2
CONSTANT Ops = 2
CONSTANT Recheck = TRUE
CONSTANT Bump = TRUE
INVARIANT Explainable
CHECK_DEADLOCK FALSE

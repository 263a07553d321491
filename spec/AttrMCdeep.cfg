SPECIFICATION MSpec
CONSTANT Threads = 2
CONSTANT Ops = 3
CONSTANT Relook = TRUE
INVARIANTS Explainable Once ToldOnce AllTold
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANT Threads = 3
CONSTANT Ops = 1
CONSTANT Relook = TRUE
INVARIANTS Explainable Once ToldOnce AllTold
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANT Threads = 2
CONSTANT Ops = 3
CONSTANT Values = {1, 2, 3}
CONSTANT Look = TRUE
INVARIANTS Spells Reachable Same NoTwins
PROPERTY Immutable
CHECK_DEADLOCK FALSE

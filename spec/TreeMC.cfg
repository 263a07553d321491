SPECIFICATION MSpec
CONSTANT Threads = 3
CONSTANT Ops = 2
CONSTANT Values = {1, 2}
CONSTANT Look = TRUE
INVARIANTS Spells Reachable Same NoTwins
PROPERTY Immutable
CHECK_DEADLOCK FALSE

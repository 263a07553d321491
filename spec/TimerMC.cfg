SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
  Attrs = {1, 2}
  MaxClock = 3
  MaxOpen = 2
INVARIANT DurationsAddUp
INVARIANT InclusiveRight
INVARIANT PrevNotAhead

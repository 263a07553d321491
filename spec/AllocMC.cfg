SPECIFICATION Spec
CONSTANTS Threads = {0, 1}
  Addrs = {0, 1, 2, 3}
  Sizes = {1, 3}
  MaxOps = 6
INVARIANT AddsUp
INVARIANT NeverLess
INVARIANT HighWater

SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Attrs = {1, 2, 3}
  Values = {1, 2}
  MaxDepth = 3
VIEW View
INVARIANT BranchIsOpen
PROPERTIES OneSnapPerChannel FullContext
CHECK_DEADLOCK FALSE

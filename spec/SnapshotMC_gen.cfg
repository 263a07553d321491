SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Attrs = {1, 2, 3}
  Values = {1, 2}
  MaxDepth = 2
VIEW View
ACTION_CONSTRAINT PrintProg
CHECK_DEADLOCK FALSE

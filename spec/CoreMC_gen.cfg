SPECIFICATION MCSpec
CONSTANTS
  Threads = {1}
  Attrs = {1, 2, 3, 4}
  Values = {1, 2}
  Channels = {}
  MaxDepth = 2
  Kinds <- KindsGen
VIEW View
INVARIANTS ContextIsOpened GetIsInnermost
ACTION_CONSTRAINT PrintProg

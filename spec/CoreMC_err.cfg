SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Attrs = {1, 2}
  Values = {1, 2}
  Channels = {}
  MaxDepth = 2
  Kinds <- KindsErr
VIEW View
INVARIANTS ContextIsOpened GetIsInnermost
ACTION_CONSTRAINT PrintProg

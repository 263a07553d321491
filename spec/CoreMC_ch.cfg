SPECIFICATION MCSpec
CONSTANTS
  Threads = {1}
  Attrs = {1, 2}
  Values = {1}
  Channels = {1, 2, 3}
  MaxDepth = 2
  Kinds <- KindsCh
VIEW View
INVARIANTS ContextIsOpened GetIsInnermost ActiveExist
PROPERTIES NotifiedAreActive EachChannelSame ErrorContained ChannelsKeepContext

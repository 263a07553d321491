SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Attrs = {1, 2, 3}
  Values = {1, 2}
  Channels = {1}
  MaxDepth = 2
  Kinds <- KindsCtx
VIEW View
INVARIANTS ContextIsOpened GetIsInnermost HiddenInvisible SlotsRespectKind ActiveExist
PROPERTIES NotifiedAreActive EachChannelSame ErrorContained StoppedThreadsInert OneStorePerCall ChannelsKeepContext

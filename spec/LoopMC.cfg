SPECIFICATION Spec
CONSTANTS Names = {1, 2}
  Targets = {2}
  Interval = 2
  MaxIter = 3
  MaxDepth = 3
INVARIANT Partition
INVARIANT OneMonitored

SPECIFICATION TSSpec
CONSTANTS Threads = {1, 2}
  Cap = 3
  MaxLen = 5
INVARIANT FlushRight
PROPERTY StopsForGood
PROPERTY FlushKeeps
PROPERTY NothingLost

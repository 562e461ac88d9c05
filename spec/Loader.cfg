SPECIFICATION LSpec
CONSTANTS
  NTrain = 4
  NTest = 3
  B = 2
  BTest = 2
  MaxIters = 2
INVARIANTS NoneTwice OwnSplit FullBatches AllButTheRest FixedOrder SameEveryTime
CHECK_DEADLOCK FALSE

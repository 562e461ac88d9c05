SPECIFICATION HSpec
CONSTANTS
  HookSet = {1, 2}
  DataSet = {1, 2}
  MaxOps = 7
INVARIANTS InOrder RemovedNeverCalled OnceEach LatestData
PROPERTIES NoneForgotten
CHECK_DEADLOCK FALSE

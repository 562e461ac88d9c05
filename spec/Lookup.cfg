SPECIFICATION LSpec
CONSTANTS
  Ks = {1, 2, 3, 4, 5}
  G = 2
  MaxAsk = 3
INVARIANTS HistoryFree EveryPieceReachable
CHECK_DEADLOCK FALSE

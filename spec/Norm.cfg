SPECIFICATION NSpec
CONSTANTS
  Values = {0, 1, 2, 3}
  Weights = {1, 2, 8}
  Starts = {0, 1, 2}
  MaxOps = 5
INVARIANTS LatestPass NonNegative
CHECK_DEADLOCK FALSE

SPECIFICATION KSpec
CONSTANTS
  MaxTick <- MT
  Numbers = {1, 2, 3, 4, 5}
  Intervals <- Ivs
INVARIANTS EveryRequestedOnce Chained Covers Monotone Boundaries OnlyThese Transparent
CHECK_DEADLOCK FALSE

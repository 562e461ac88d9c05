SPECIFICATION ISpec
CONSTANTS
  Methods <- Ms
  Objects <- Objs
  StepsOpt <- StepSet
  Defaults <- Dflts
  MaxInt = 2
INVARIANTS Independent AdaptiveFree Counts
PROPERTY CallerKept
CHECK_DEADLOCK FALSE

SPECIFICATION LSpec
CONSTANTS
  Configs <- MCConfigs
  MaxOps = 5
INVARIANTS Complete EnlargementsCounted NeverBeforeForward
PROPERTY Stable
CHECK_DEADLOCK FALSE

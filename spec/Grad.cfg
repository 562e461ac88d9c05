SPECIFICATION GSpec
CONSTANTS
  Modes <- AllModes
  Starts <- StartSet
  Lengths <- LengthSet
  Losses <- LossSet
INVARIANTS ChainRule Recursive Differences Unused
CHECK_DEADLOCK FALSE

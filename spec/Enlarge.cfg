SPECIFICATION ESpec
CONSTANTS
  Shapes <- MCShapes
INVARIANTS RightSize Central EveryParameterOnce
CHECK_DEADLOCK FALSE

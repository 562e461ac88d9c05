SPECIFICATION FSpec
CONSTANTS
  Params <- ParamsMC
  Size <- SizeMC
  MaxOps = 3
INVARIANTS LastDecides CountsAddUp
CHECK_DEADLOCK FALSE

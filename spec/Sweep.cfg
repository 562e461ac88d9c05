SPECIFICATION SSpec
CONSTANTS
  MaxKeys <- KeysMC
  MaxVals <- ValsMC
INVARIANTS Ascending Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE

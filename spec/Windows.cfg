SPECIFICATION WSpec
CONSTANTS
  MaxT = 14
INVARIANTS Agrees NoGap Proper OnlyLastShort
PROPERTY Terminates
CHECK_DEADLOCK FALSE

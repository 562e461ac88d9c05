SPECIFICATION DSpec
CONSTANTS
  Names = {"a", "b", "c"}
  KeySet = {"q1", "q2"}
  Ranks = {1, 3}
  SizesD = {1, 2}
  SizesO = {2}
  MaxBlocks = 3
INVARIANTS UniqueNames SplitInvertsConcat NothingLost RefusedWasTaken
CHECK_DEADLOCK FALSE

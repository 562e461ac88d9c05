SPECIFICATION CSpec
CONSTANTS
  Names = {1, 2, 3}
  Sizes = {1, 2}
  MaxBlocks = 4
INVARIANTS ChannelsAddUp NothingLostOrDoubled DataKept NewDataIsZero
CHECK_DEADLOCK FALSE

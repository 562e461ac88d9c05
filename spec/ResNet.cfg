SPECIFICATION RSpec
CONSTANTS
  ChannelLists <- MCChannels
  BlockLists <- MCBlocks
  HeightSet = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 27}
  StrideSet = {1, 2, 3}
INVARIANTS ChannelsRight SizeRight EveryBlockUsed
CHECK_DEADLOCK FALSE

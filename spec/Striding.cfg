SPECIFICATION SSpec
CONSTANTS
  Sizes = {1, 2, 3, 5}
  Strides = {1, 2, 3}
  MaxRank = 4
INVARIANTS SizeRule OrderFree KeptRule WellFormedOut
CHECK_DEADLOCK FALSE

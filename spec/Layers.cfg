SPECIFICATION LSpec
CONSTANTS
  Values = {0, 1, 2}
  WeightValues = {1, 2}
  MaxOps = 4
INVARIANTS CurrentEntries OnlyKnownWeighted
PROPERTIES ConversionKeepsValues WeightsDoNotMatter
CHECK_DEADLOCK FALSE

SPECIFICATION PSpec
CONSTANTS
  Configs <- ConfigsMC
  Metrics <- MetricsMC
  Len0 <- LenMC
INVARIANTS RuleHolds NeverBelowMin ConvergedOnlyAtAnEnd ConvergenceStays
CHECK_DEADLOCK FALSE

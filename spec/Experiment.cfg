SPECIFICATION ESpec
CONSTANTS
  Seeds <- SeedsMC
  Combos <- CombosMC
  MaxSweeps <- SweepsMC
INVARIANTS NeverTwice OnlyRequested OnlyMissing Exactly
PROPERTY ResultsKept
CHECK_DEADLOCK FALSE

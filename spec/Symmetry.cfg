SPECIFICATION Spec
CONSTANTS
  Configs <- ConfigSet
  Starts <- StartSet
  Symmetries <- SymSet
  MaxSteps = 1
INVARIANTS StillImage EnergyScales Conserved DataFollow
CHECK_DEADLOCK FALSE

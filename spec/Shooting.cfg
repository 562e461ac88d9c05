SPECIFICATION Spec
CONSTANTS
  ModelSet <- VecModels
  NLs <- Both
  MaxSteps = 2
INVARIANTS Stationary CostateEquation ReducedLagrangian DataFollows
CHECK_DEADLOCK FALSE

SPECIFICATION ISpec
CONSTANTS
  Seeds = {1, 2}
  Sizes = {1, 3}
  MaxOps = 5
INVARIANTS Fresh NoNoiseInFixed Reproducible
CHECK_DEADLOCK FALSE

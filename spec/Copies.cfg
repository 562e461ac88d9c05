SPECIFICATION CSpec
CONSTANTS
  Models = {1, 2}
  MaxOps = 5
INVARIANTS Independent Faithful
CHECK_DEADLOCK FALSE

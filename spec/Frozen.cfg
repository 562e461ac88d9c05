SPECIFICATION FSpec
CONSTANTS
  Modes = {"frozen", "own"}
  Pieces = 3
  EvalsPerPass = 6
  MaxOps = 5
INVARIANTS FrozenDuringPass FromInitialParticles OwnSetOfPiece
CHECK_DEADLOCK FALSE

SPECIFICATION SSpec
CONSTANTS
  Seeds = {0, 1}
  Hidden = {7, 8}
  Kinds <- AllKinds
  Uses <- UsesOf
  MaxOps = 5
INVARIANTS Reproducible Fresh
CHECK_DEADLOCK FALSE

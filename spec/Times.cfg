SPECIFICATION TSpec
CONSTANTS
  Ends <- EndSet
  Vectors <- Vecs
  Conversions <- Convs
  MaxOps = 4
INVARIANTS LastSettingInForce EveryTimeAnswered StartsWithInitial
CHECK_DEADLOCK FALSE

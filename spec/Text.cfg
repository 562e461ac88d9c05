SPECIFICATION TSpec
CONSTANTS
  Alphabet <- AlphaMC
  MaxText <- LenMC
  ItemChars <- ItemCharsMC
  MaxItems <- ItemsMC
INVARIANTS IsEscape Reversible OrdinaryKept NoBareSpecial ConfHoldsItems ConfIsJoin
CHECK_DEADLOCK FALSE

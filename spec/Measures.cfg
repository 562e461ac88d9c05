SPECIFICATION MSpec
CONSTANTS
  Times <- TimesMC
  Mats <- MatsMC
  MaxLen <- LenMC
INVARIANTS IsIntegral NoLoss
CHECK_DEADLOCK FALSE

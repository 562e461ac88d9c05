SPECIFICATION FSpec
CONSTANTS
  Places <- PlaceSet
  Batches <- BatchSet
  Steps = 4
INVARIANTS FollowsParticle SamePlaceSameFate Independent ParticlesIgnoreData
CHECK_DEADLOCK FALSE

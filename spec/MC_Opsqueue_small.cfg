SPECIFICATION Spec
CONSTANTS
  Consumers = {w1, w2}
  MaxSubs = 2
  Profiles <- MC_Profiles
  MaxRetries = 2
  MaxEpoch = 0
  MaxMail = 1
  Limits = {2}
  Strategies <- MC_Oldest
  MaxExpire = 1
  MaxCrash = 0
  MaxDisc = 1
  Wild = FALSE
  OwnerOnly = TRUE
  Linger = TRUE
  SkipVanished = TRUE
  WakeOnRelease = TRUE
  AtomicEmpty = TRUE
  CheckDone = TRUE
INVARIANTS Inv_Place Inv_Counters Inv_OneStatus Inv_Progress Inv_Failure Inv_Cancelled Inv_Exclusive Inv_NoStranded Inv_InFlight
PROPERTIES Act_Final Act_Whole Act_NoDead
CHECK_DEADLOCK FALSE

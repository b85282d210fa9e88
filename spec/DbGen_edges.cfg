SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxSubs = 2
  Sizes = {0, 1, 2}
  Keys = {1}
  MaxRetries = 2
  MaxEpoch = 1
  MaxIdx = 1
  Depth = 0
CHECK_DEADLOCK FALSE

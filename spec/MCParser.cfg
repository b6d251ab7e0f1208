SPECIFICATION Spec
CONSTANTS
  Base = 3
  Sync1 = 2
  Sync2 = 1
  IdLen = 0
  LenLen = 1
  MaxPayload = 1
  Bytes = {0, 1, 2}
  MaxStream = 9
INVARIANTS ChunkInvariance OnlyWellFormed InOrder NoneMissed ErrorsOnce Progress Residue
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
  Base = 256
  Sync1 = 181
  Sync2 = 98
  IdLen = 2
  LenLen = 2
  MaxPayload = 8176
  Cap = 0
INVARIANT Accepted
CHECK_DEADLOCK FALSE

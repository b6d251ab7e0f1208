INIT Init
NEXT Next
CONSTANTS
  Base = 256
  Sync1 = 181
  Sync2 = 98
  IdLen = 2
  LenLen = 2
  MaxPayload = 8176
  Depth = 3
CHECK_DEADLOCK FALSE

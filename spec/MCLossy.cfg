SPECIFICATION Spec
CONSTANTS
  Base = 3
  Sync1 = 2
  Sync2 = 1
  IdLen = 0
  LenLen = 1
  MaxPayload = 1
  Cap = 5
  Bytes = {0, 1, 2}
  MaxStream = 8
INVARIANTS Holds NothingElse InOrder DropIsHarmless
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
  Caps = {0}
  Values = {0}
  MaxOps = 0
INVARIANT Accepted
CHECK_DEADLOCK FALSE

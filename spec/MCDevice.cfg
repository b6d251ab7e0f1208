SPECIFICATION Spec
CONSTANTS
  Needs <- N2
  Tokens <- T3
  MaxToks = 5
INVARIANTS Acknowledged InOrder Covered
PROPERTY Heeds
CHECK_DEADLOCK FALSE

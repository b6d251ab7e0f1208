SPECIFICATION Spec
CONSTANTS
  Caps <- SmallCaps
  Values = {1, 2}
  MaxOps = 5
INVARIANTS Bounded Fifo FillsUp FindsFirst
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS Says LastCounts Others
PROPERTY Taken
CHECK_DEADLOCK FALSE

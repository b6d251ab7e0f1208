SPECIFICATION TSpec
INVARIANT Accepted
ALIAS Shown
CHECK_DEADLOCK FALSE
